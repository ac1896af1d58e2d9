"""S01: profiles."""
from frames import *
from stores import U, put, region, AllocHooks


class ProfHooks(RunHooks):
    maybe = frozenset()
    no = ()

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n in ('abort', 'exit', '_exit'):
            return []
        if n in ('Source_Copy', 'Executable_Copy'):
            v = self.tok(e, st, n)
            e.assume(st, ('ne', v), True)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n in ('strdup', 'malloc', 'realloc'):
            no = st.clone()
            self.note(no, 'call', n, R, ZERO)
            v = self.tok(e, st, n)
            region(e, v, 64 + len(st.prop))
            self.note(st, 'call', n, R, v)
            if n == 'realloc':
                for b in [b for b in st.mem if b[0] != 'any' and isc(sub(b, R[0]))]:
                    st.mem[add(sub(b, R[0]), v)] = st.mem[b]
                self.moved = v
            return [(st, v), (no, ZERO)]
        if n == 'clock':
            v = self.tok(e, st, 'clock', 'i', 0, 2 ** 60)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n in ('fprintf', 'fputs', 'fputc', 'fwrite', 'printf', 'puts', 'putchar'):
            self.note(st, 'print', n, R)
            return [(st, e.sym(fr, st, ins, ins.ty) if ins.res else None)]
        if n in ('fopen', 'fclose'):
            v = ZERO if n == 'fclose' else self.tok(e, st, n)
            if n == 'fopen':
                no = st.clone()
                self.note(no, 'call', n, R, ZERO)
                region(e, v, 64 + len(st.prop))
                self.note(st, 'call', n, R, v)
                return [(st, v), (no, ZERO)]
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n in ('Source_GetName',):
            v = self.tok(e, st, n)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n in self.no:
            v = self.tok(e, st, n) if ins.ty == PTR else e.sym(fr, st, ins, ins.ty) if ins.res else None
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        return super().on_call(e, fr, st, ins, f, args)


class ListHooks(ProfHooks):
    def on_call(self, e, fr, st, ins, f, args):
        if f is not None and not isinstance(f, str) and f.name in ('Runtime_GetTimingTable', 'TimingTable_getSummary'):
            return None
        return super().on_call(e, fr, st, ins, f, args)


def T(m, n, base='table'):
    return rt(m, base, 'TimingTable', n)


def entry(s, n, at, z):
    o, size = s.member('FunctionExecutionSummary', n)
    return add(at, C(o))


def table(w, ob, res):
    s = U(w, ob, res, 'profile')
    z = s.size('FunctionExecutionSummary')
    # a new entry
    f = s.fn('TimingTable_newEntry')
    got = set()
    for u in range(0, 12):
        for size in sorted({u, u + 1, u + 3, 8, 0}):
            if size < u:
                continue
            def pre(m, st):
                put(st, T(m, 'used'), C(u))
                put(st, T(m, 'size'), C(size))
                region(m.e, m['table'], 1)
                region(m.e, T(m, 'entries'), 2)
                region(m.e, m['name'], 3)
                region(m.e, m['src'], 4)
            m = s.follow(f, ['table', 'src', 'line:u', 'name'], pre=pre, hooks=ProfHooks)
            for p in m.paths:
                res.count('outcomes')
                ent = p.at(T(m, 'entries')[1], 8, 'p')
                used, cap = p.at(T(m, 'used')[1], 8), p.at(T(m, 'size')[1], 8)
                grown = [x for x in p.ev if x[0] == 'call' and x[1] == 'realloc' and x[3] != ZERO]
                if p.differ(used, C(u + 1)):
                    s.bad(m, p, 'used', 'a new entry is not counted once')
                if p.differ(p.ret, C(u)):
                    s.bad(m, p, 'id', 'a new entry has a number that is not its own')
                if p.may(('le', sub(add(cap, ONE), used))):
                    s.bad(m, p, 'room', 'there are more entries than there is room for')
                if grown:
                    got.add('grown')
                    g = grown[-1]
                    if len(grown) > 1 or p.differ(g[2][0], T(m, 'entries')):
                        s.bad(m, p, 'grow', 'the entries are not what grows')
                    if p.differ(ent, g[3]):
                        s.bad(m, p, 'moved', 'the entries are still those before they grew')
                    if p.may(('le', sub(add(g[2][1], ONE), scale(p.res(cap), z)))):
                        s.bad(m, p, 'bytes', 'there is less memory than room is said to be')
                else:
                    got.add('there')
                    if p.differ(ent, T(m, 'entries')):
                        s.bad(m, p, 'moved', 'the entries are others')
                    if p.differ(cap, C(size)):
                        s.bad(m, p, 'size', 'the room is said to be another without growing')
                at = add(p.res(ent), C(u * z))
                cp = [x for x in p.ev if x[0] == 'call' and x[1] == 'Source_Copy']
                dup = [x for x in p.ev if x[0] == 'call' and x[1] == 'strdup' and x[3] != ZERO]
                for n, want, why in (('src', cp[0][3] if len(cp) == 1 and p.same(cp[0][2][0], m['src']) else None, 'the source given, kept for the profile'),
                                     ('name', dup[0][3] if len(dup) == 1 and p.same(dup[0][2][0], m['name']) else False, 'a copy of the name given'), ('line', m['line'], 'the line given'),
                                     ('calls', ZERO, 'no calls'), ('time', ZERO, 'no time')):
                    if want is False:
                        continue
                    v = p.cell(entry(s, n, at, z))
                    if v is False:
                        continue
                    if v is None or want is None or (p.differ(v, want) if n != 'time' else v not in (ZERO, ('f', 0.0))):
                        s.bad(m, p, 'entry ' + n, 'a new entry has not %s' % why)
                for b in p.kind('store'):
                    d = p.res(sub(p.res(b[1]), p.res(ent)))
                    if isc(d) and not u * z <= d[1] < (u + 1) * z:
                        s.bad(m, p, 'other', 'making an entry changes another')
                        break
    # a call
    f = s.fn('TimingTable_sumCallTime')
    for u, k in [(1, 0), (3, 0), (3, 1), (3, 2), (9, 8)]:
        def pre(m, st):
            put(st, T(m, 'used'), C(u))
            put(st, T(m, 'size'), C(16))
            region(m.e, m['table'], 1)
            region(m.e, T(m, 'entries'), 2)
        m = s.follow(f, ['table', C(k), 'time:f'], pre=pre, hooks=ProfHooks)
        if not m.paths and not m.undecided:
            s.bad(m, None, 'refused', 'a call of an entry that is there is refused')
        for p in m.paths:
            res.count('outcomes')
            got.add('counted')
            at = add(T(m, 'entries'), C(k * z))
            c = ('m', entry(s, 'calls', at, z), 0, 8, 'i')
            t = ('m', entry(s, 'time', at, z), 0, 8, 'f')
            v = p.cell(c[1])
            if v is None or v is not False and p.differ(v, add(c, ONE)):
                s.bad(m, p, 'calls', 'a call is not counted exactly once')
            v = p.cell(t[1])
            if v is None or v is not False and not summed(v, t, m['time']):
                s.bad(m, p, 'time', 'the time of a call is not added')
            for b in p.kind('store'):
                if p.res(b[1]) not in (c[1], t[1]):
                    s.bad(m, p, 'others', 'counting a call changes something else')
                    break
    f = s.fn('TimingTable_getSummary')
    m = s.follow(f, ['table', 'count'], hooks=ProfHooks, pre=lambda m, st: (region(m.e, m['table'], 1), region(m.e, m['count'], 2)))
    for p in m.paths:
        got.add('told')
        if p.differ(p.ret, T(m, 'entries')) or p.differ(p.at(m['count'], 8), T(m, 'used')):
            s.bad(m, p, 'told', 'the entries told are not those of the table')
    m = s.follow(s.fn('TimingTable_new'), [], hooks=ProfHooks)
    for p in m.paths:
        if p.ret == ZERO:
            continue
        got.add('empty')
        for n in ('used', 'size', 'entries'):
            v = p.cell(add(p.ret, s.off('TimingTable', n)))
            if v is None or v is not False and p.differ(v, ZERO):
                s.bad(m, p, 'empty', 'a new table is not empty (%s)' % n)
    s.needs(m, ('grown', 'there', 'counted', 'told', 'empty'), got)


def summed(v, a, b):
    return v[0] == 'op' and v[1] == 'fadd' and {x for x in v[2:] if isinstance(x, tuple)} >= {a, b} or v[0] == 'op' and a in atoms(v) and b in atoms(v) and 'fadd' in str(v) and 'fsub' not in str(v)


def listing(w, ob, res):
    s = U(w, ob, res, 'listing')
    z = s.size('FunctionExecutionSummary')
    f = s.fn('Runtime_SerializeProfilingResultsToStream')
    got = set()
    for n in range(0, 4):
        def pre(m, st):
            region(m.e, m['runtime'], 1)
            region(m.e, m['stream'], 2)
            m.t = rt(m, 'runtime', 'xRuntime', 'timing')
            m.e.rng[m.t] = (0, 2 ** 63 - 1)
            m.E = ('m', add(m.t, s.off('TimingTable', 'entries')), 0, 8, 'p')
            region(m.e, m.E, 3)
            put(st, ('m', add(m.t, s.off('TimingTable', 'used')), 0, 8, 'i'), C(n))
            for k in range(n):
                for g in ('name', 'src'):
                    region(m.e, ('m', entry(s, g, add(m.E, C(k * z)), z), 0, 8, 'p'), 8 + 2 * k + (g == 'src'))
                m.e.rng[('m', entry(s, 'calls', add(m.E, C(k * z)), z), 0, 8, 'i')] = (0, 2 ** 40)
        m = s.follow(f, ['runtime', 'stream'], pre=pre, hooks=ListHooks, turns=n + 3)
        for p in m.paths:
            res.count('outcomes')
            pr = p.kind('print')
            if p.true(('eq', m.t)):
                got.add('off')
                if pr:
                    s.bad(m, p, 'off', 'a profile is printed without profiling')
                continue
            lines = []
            for k in range(n):
                at = add(m.E, C(k * z))
                c = ('m', entry(s, 'calls', at, z), 0, 8, 'i')
                called = p.true(('le', sub(ONE, c)))
                if called is None:
                    # not looked at
                    if not any(p.res(a) == c for x in pr for a in x[2]):
                        s.bad(m, p, 'calls', 'a function is left out of a profile, called or not')
                    else:
                        s.bad(m, p, 'uncalled', 'a function is in a profile, called or not')
                    lines = None
                    break
                if called:
                    lines.append(k)
            if lines is None:
                continue
            full = [x for x in pr if len(x[2]) > 2]
            if len(full) != len(lines):
                s.bad(m, p, 'lines', 'a profile has not one line for each function that was called')
                continue
            for k, x in zip(lines, full):
                got.add('line')
                at = add(m.E, C(k * z))
                g = {q: ('m', entry(s, q, at, z), 0, 8, 'f' if q == 'time' else 'p' if q in ('name', 'src') else 'i') for q in ('name', 'src', 'calls', 'time')}
                if p.differ(x[2][0], m['stream']):
                    s.bad(m, p, 'stream', 'a profile is printed to another stream')
                txt = m.e.p.cstr(x[2][1]) if hasattr(m.e, 'p') else w.p.cstr(x[2][1])
                a = [p.res(y) for y in x[2][2:]]
                if not any(p.same(y, g['name']) for y in a):
                    s.bad(m, p, 'name', 'a line of a profile has not the name of its function')
                if not any(p.same(y, g['calls']) for y in a):
                    s.bad(m, p, 'count', 'a line of a profile has not the number of calls')
                nm = [y[3] for y in p.ev if y[0] == 'call' and y[1] == 'Source_GetName' and p.same(y[2][0], g['src'])]
                if not any(p.same(y, q) for y in a for q in nm):
                    s.bad(m, p, 'source', 'a line of a profile has not the source of its function')
                tm = [y for y in a if y[0] == 'op' and g['time'] in atoms(y)]
                if not any(micro(y, g['time']) for y in tm):
                    s.bad(m, p, 'time', 'a line of a profile has not the time in microseconds')
    f = s.fn('Runtime_SerializeProfilingResultsToFile')
    class H(ProfHooks):
        no = ('Runtime_SerializeProfilingResultsToStream',)
    m = s.follow(f, ['runtime', 'file'], hooks=H)
    for p in m.paths:
        op = [x for x in p.ev if x[0] == 'call' and x[1] == 'fopen']
        wr = [x for x in p.ev if x[0] == 'call' and x[1] == 'Runtime_SerializeProfilingResultsToStream']
        cl = [x for x in p.ev if x[0] == 'call' and x[1] == 'fclose']
        if len(op) != 1 or p.differ(op[0][2][0], m['file']) or not (w.p.cstr(op[0][2][1]) or '').startswith('w'):
            s.bad(m, p, 'open', 'the file of a profile is not opened for writing, once')
            continue
        if op[0][3] == ZERO:
            got.add('no file')
            if p.ret != ZERO or wr:
                s.bad(m, p, 'failed', 'a profile that cannot be written is taken for written')
            continue
        got.add('file')
        if p.ret == ZERO:
            s.bad(m, p, 'refused', 'a profile that is written is told to have failed')
        if len(wr) != 1 or p.differ(wr[0][2][0], m['runtime']) or p.differ(wr[0][2][1], op[0][3]):
            s.bad(m, p, 'written', 'the profile is not written to its file once')
        elif len(cl) != 1 or p.differ(cl[0][2][0], op[0][3]) or p.ev.index(cl[0]) < p.ev.index(wr[0]):
            s.bad(m, p, 'closed', 'the file of a profile is not closed once after it is written')
    s.needs(m, ('off', 'line', 'no file', 'file'), got)


def micro(y, t):
    return y[0] == 'op' and y[1] == 'fmul' and t in y[2:] and any(x == ('f', 1000000.0) for x in y[2:]) or y[0] == 'op' and y[1] == 'fmul' and '1000000.0' in str(y) or \
        y[0] == 'op' and y[1] == 'fdiv' and '1e-06' in str(y)


def recording(w, ob, res):
    got = set()
    s = Spec(w, ob, res, 't_func')
    # each function object has an entry
    class H(ProfHooks):
        no = ('TimingTable_newEntry', 'TimingTable_sumCallTime', 'Executable_GetSource')
    m = s.follow(s.fn('Object_FromNojaFunction'), ['runtime', 'name', 'exe', 'index:u', 'argc:u', 'closure:q', 'heap', 'error'], hooks=H, record=LEAVE)
    for p in m.paths:
        if p.ret == ZERO:
            continue
        res.count('outcomes')
        tb = [x for x in p.ev if x[0] == 'call' and x[1] == 'Runtime_GetTimingTable']
        mk = [x for x in p.ev if x[0] == 'call' and x[1] == 'TimingTable_newEntry']
        if not tb:
            s.bad(m, p, 'table', 'a function is not entered in the profile')
            continue
        if tb[-1][3] == ZERO:
            got.add('not profiled')
            if mk:
                s.bad(m, p, 'off', 'a function is entered in a profile that there is not')
            continue
        got.add('profiled')
        if len(mk) != 1:
            s.bad(m, p, 'entry', 'a function is not entered in the profile once')
            continue
        R = mk[0][2]
        src = [x[3] for x in p.ev if x[0] == 'call' and x[1] == 'Executable_GetSource' and p.same(x[2][0], m['exe'])]
        if p.differ(R[0], tb[-1][3]) or not any(p.same(R[1], x) for x in src) or p.differ(R[3], m['name']):
            s.bad(m, p, 'entered', 'a function is entered in the profile as another')
        v = p.cell(add(p.ret, fo(m, 'timing_id') if isinstance(fo(m, 'timing_id'), tuple) else C(fo(m, 'timing_id'))))
        if v is None or v is not False and p.differ(v, mk[0][3]):
            s.bad(m, p, 'id', 'a function does not know its entry in the profile')
    # each call is counted
    for a in (0, 1):
        def pre(m, st):
            st.mem[m.field('argc')[1]] = (C(a), 4, None)
            m.e.h.err = m.a['error']
        m = s.follow('call', ['self', 'argv', C(a), 'rets', 'heap', 'error'], pre=pre, hooks=RunHooks, record=LEAVE, turns=8)
        tid = m.field('timing_id')
        for p in m.paths:
            if any(x[0] == 'cut' for x in p.ev):
                continue
            tb = [x for x in p.ev if x[0] == 'call' and x[1] == 'Runtime_GetTimingTable']
            sm = [x for x in p.ev if x[0] == 'call' and x[1] == 'TimingTable_sumCallTime']
            ran = [k for k, x in enumerate(p.ev) if x[0] == 'call' and x[1] == 'runInstruction']
            on = [x for x in tb if x[3] != ZERO]
            if not tb:
                continue
            res.count('outcomes')
            if not on:
                got.add('not counted')
                if sm:
                    s.bad(m, p, 'call off', 'a call is counted in a profile that there is not')
                continue
            if len(sm) != 1:
                if ran or sm:
                    s.bad(m, p, 'call', 'a call is not counted once in the profile')
                continue
            got.add('counted')
            if ran and p.ev.index(sm[0]) < ran[-1]:
                s.bad(m, p, 'early', 'a call is counted before it ends')
            if p.differ(sm[0][2][0], on[-1][3]):
                s.bad(m, p, 'call table', 'a call is counted in another profile')
            if p.differ(sm[0][2][1], tid):
                s.bad(m, p, 'call id', 'a call is counted for another function')
    # whether there is one
    s2 = U(w, ob, res, 'profile')
    m = s2.follow(s2.fn('Runtime_GetTimingTable'), ['runtime'])
    for p in m.paths:
        if p.differ(p.ret, rt(m, 'runtime', 'xRuntime', 'timing')):
            s2.bad(m, p, 'asked', 'the profile told is not that of the runtime')
    s.needs(m, ('not profiled', 'profiled', 'not counted', 'counted'), got)


def profile_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    table(w, ob, res)
    listing(w, ob, res)
    recording(w, ob, res)
    res.need('operations', 20)
    res.need('outcomes', 30)
    return res

"""The functions scripts can call: their tables, arguments and results."""
from types_ import *

MAX_RETS = 8
SLOT = 'struct.StaticMapSlot'


# ---------------------------------------------------------------- tables
class Slot:
    __slots__ = ('name', 'kind', 'val', 'aux')

    def __repr__(self):
        return 'Slot(%r, %r, %r, %r)' % (self.name, self.kind, self.val, self.aux)


class Tables:
    def __init__(self, w):
        self.w = w
        p = w.p
        m = {n: off for n, off, ct, sz in p.di_struct('StaticMapSlot') if n}
        anon = [off for n, off, ct, sz in p.di_struct('StaticMapSlot') if not n]
        if m.get('name') is None or m.get('kind') is None or len(anon) != 2:
            raise Broken('the slot structure of the builtin tables is not the one known')
        self.o_name, self.o_kind = m['name'], m['kind']
        self.o_val, self.o_aux = anon
        self.size = p.size(('struct', SLOT))
        vals, groups = p.enums()
        self.kinds = {v: n for n, v in groups['StaticMapSlotKind'].items()} if isinstance(groups['StaticMapSlotKind'], dict) \
            else {vals[n]: n for n in groups['StaticMapSlotKind']}
        self.e = Engine(p, w.eff)
        self.tables = {}
        for g, x in p.globals.items():
            if x.init is None:
                continue
            t = x.ty
            n = None
            if t[0] == 'arr' and t[2] == ('struct', SLOT):
                n = t[1]
            elif t[0] in ('packed', 'lit') and ('struct', SLOT) in t[1] and len(t[1]) > 1:
                n = len(t[1])
            if n:
                self.tables[g] = [self.slot(x, k) for k in range(n)]
        self.argc = {}
        for g, ss in self.tables.items():
            for s in ss:
                if s.kind == 'SM_FUNCT' and s.val[0] == 'g':
                    self.argc.setdefault(s.val[1], set()).add(s.aux)

    def slot(self, x, k):
        s = Slot()
        b = k * self.size
        at = lambda o, ty: self.e.const_at(x.ty, x.init, b + o, ty)
        s.name = at(self.o_name, PTR)
        if s.name is not None and s.name[0] == 'g':
            s.name = self.w.p.cstr(s.name)
        elif s.name == ZERO:
            s.name = None
        kd = at(self.o_kind, I32)
        s.kind = self.kinds.get(kd[1] if kd else None, kd)
        v = at(self.o_val, PTR)
        if v is None or v[0] == 'c':
            v = at(self.o_val, I64) or v
        f = at(self.o_val, ('fp', 'double'))
        s.val = v if v is not None and v[0] == 'g' else (f if f is not None and f[0] == 'f' and f[1] else v)
        a = at(self.o_aux, I32)
        s.aux = a[1] if a else None
        if isinstance(s.aux, int) and s.aux >= 1 << 31:
            s.aux -= 1 << 32
        return s


# ---------------------------------------------------------------- formats
# parseArgs: letter -> (types of the object, {offset in the payload: size})
FMT = {'o': (None, {}), 'b': ('bool', {0: (1, 'i')}), 'B': ('buffer', {0: (8, 'p'), 8: (8, 'i')}), 'i': ('int', {0: (8, 'i')}),
       'f': ('float', {0: (8, 'f')}), 'l': ('list', {}), 'm': ('map', {}), 's': ('string', {0: (8, 'p'), 8: (8, 'i')}),
       'F': ('file', {0: (8, 'p')})}
# returnValues: letter -> type of the variable argument
RET = {'o': PTR, 'n': None, 'i': I32, 'I': I64, 'f': ('fp', 'double'), 's': PTR, 'F': PTR}


def parse_fmt(s):
    """[(letter, optional)] or None"""
    out, k = [], 0
    while k < len(s):
        opt = s[k] == '?'
        if opt:
            k += 1
        if k >= len(s) or s[k] not in FMT:
            return None
        out.append((s[k], opt))
        k += 1
    return out


class NativeHooks(TypeHooks):
    def __init__(self, w, info, tinfo, tabs, fn, argc):
        super().__init__(w, info, tinfo, fn)
        self.argc = argc
        self.tabs = tabs
        self.bad2 = {}
        self.formats = 0
        self.pargs = {}       # root -> items (per path: see prop)
        self.ARGV = ('alloc', 0, 'argv', ())
        self.RETS = ('alloc', 0, 'rets', ())
        m = {n: (off, sz) for n, off, ct, sz in w.p.di_struct('ParsedArgument') if n}
        anon = [off for n, off, ct, sz in w.p.di_struct('ParsedArgument') if not n]
        self.psize = sum(sz for n, off, ct, sz in w.p.di_struct('ParsedArgument')[-1:]) + anon[0]
        self.o_def, self.o_pay = m['defined'][0], anon[0]
        self.types = {}
        for g in tinfo.types:
            self.types[g.split(':')[-1][2:]] = g

    def flag(self, kind, e, fr, st, ins, what):
        self.bad2.setdefault((kind, ins, what), st.clone())

    # prop: (error, located[, dead]); the formats parsed on a path are kept in memory cells
    def fmtcell(self, r):
        return ('any', ('fmt', r))

    def contract(self, e, fr, st, ins, f, args):
        if f.name == 'parseArgs' and f.gid != self.fn.gid:
            return self.parse(e, fr, st, ins, f, args)
        if f.name in ('returnValues', 'returnValues2') and f.gid != self.fn.gid:
            return self.give(e, fr, st, ins, f, args)
        return super().contract(e, fr, st, ins, f, args)

    def fail(self, e, fr, st, ins):
        bad = st.clone()
        if self.errp is not None:
            self.set_error(e, fr, bad, ins, self.errp)
        return bad

    def parse(self, e, fr, st, ins, f, args):
        argv, argc, pa, fmt = (e.res(st, a) for a in args[1:5])
        s = self.w.p.cstr(fmt) if fmt[0] == 'g' else None
        bad = self.fail(e, fr, st, ins)
        if s is None:
            e.havoc_call(fr, st, ins, [f.gid], args)
            return [(st, ONE), (bad, ZERO)]
        self.formats += 1
        items = parse_fmt(s)
        if items is None:
            self.flag('args', e, fr, st, ins, 'the argument format "%s" is not valid' % s)
            return [(bad, ZERO)]
        r = root(pa)
        cap = self.capacity(e, fr, r)
        if cap is not None and len(items) * self.psize + self.off(pa, r) > cap:
            self.flag('args', e, fr, st, ins, '"%s" parses more arguments than there is room for' % s)
        lo, hi = e.bounds(st, argc)
        if hi < len(items):
            self.flag('args', e, fr, st, ins, '"%s" asks for more arguments than are ever given' % s)
            return [(bad, ZERO)]
        e._assume_le(st, sub(C(len(items)), argc))
        outs = [st]
        for k, (ch, opt) in enumerate(items):
            nxt = []
            for x in outs:
                cells = {b for b in x.mem if b[0] != 'any' and root(b) == r and isc(sub(b, pa)) and
                         k * self.psize <= sub(b, pa)[1] < (k + 1) * self.psize}
                for b in cells:
                    del x.mem[b]
                d = add(pa, C(k * self.psize + self.o_def))
                if opt:
                    y = x.clone()
                    y.mem[d] = (ZERO, 1, None)
                    y.mem[('any', ('item', r, k))] = (ZERO, 0, None)
                    nxt.append(y)
                x.mem[d] = (ONE, 1, None)
                x.mem[('any', ('item', r, k))] = (C(ord(ch)), 0, None)
                tn, lay = FMT[ch]
                for o, (sz, kd) in lay.items():
                    h = ('h', fr.act, ins.blk, ins.idx, e.it(fr, x, ins.blk), 'arg%d.%d' % (k, o), kd)
                    e.rng.setdefault(h, (0, 1) if ch == 'b' else (1, 2 ** 62) if kd == 'p' else
                                     (0, 2 ** 62) if o else e.tyrange(('int', 64)))
                    x.mem[add(pa, C(k * self.psize + self.o_pay + o))] = (h, sz, None)
                if tn is not None and self.types.get(tn):
                    a = e.load(fr, x, ins, add(argv, C(8 * k)), PTR, ('elem', PTR))
                    ok = e.assume(x, ('eq', sub(self.typeof(e, fr, x, a), ('g', self.types[tn]))), True)
                    if not ok:
                        continue
                nxt.append(x)
            outs = nxt
        return [(x, ONE) for x in outs] + [(bad, ZERO)]

    def off(self, a, r):
        d = sub(a, r)
        return d[1] if isc(d) else 0

    def capacity(self, e, fr, r):
        if r is None or r[0] != 'loc':
            return None
        f = fr
        while f is not None and f.act != r[1]:
            f = f.parent
        if f is None:
            return None
        d = self.w.eff.defs(f.fn).get(r[2])
        if d is None or d.op != 'alloca':
            return None
        return self.w.p.size(d.x)

    def give(self, e, fr, st, ins, f, args):
        rets, fmt = e.res(st, args[2]), e.res(st, args[3])
        s = self.w.p.cstr(fmt) if fmt[0] == 'g' else None
        bad = self.fail(e, fr, st, ins)
        if s is None:
            e.havoc_call(fr, st, ins, [f.gid], args)
            v = e.retsym(fr, st, ins, f)
            e._assume_le(st, scale(v, -1))
            e._assume_le(st, sub(v, C(MAX_RETS)))
            return [(st, v), (bad, C(-1))]
        self.formats += 1
        k = 4
        for ch in s:
            if ch not in RET:
                self.flag('rets', e, fr, st, ins, '"%s" is not a valid result format' % s)
                return [(bad, C(-1))]
            if RET[ch] is None:
                continue
            if k >= len(args):
                self.flag('rets', e, fr, st, ins, '"%s" asks for more results than are passed' % s)
                break
            ty = ins.a[k][0]
            if ty != RET[ch]:
                self.flag('rets', e, fr, st, ins, 'result %d of "%s" is passed as another type' % (k - 3, s))
            k += 1
        if k < len(args):
            self.flag('rets', e, fr, st, ins, '"%s" leaves results behind' % s)
        if len(s) > MAX_RETS:
            self.flag('rets', e, fr, st, ins, '"%s" returns more values than fit' % s)
        e.havoc_call(fr, st, ins, [f.gid], [ZERO if j == 2 else a for j, a in enumerate(args)])
        for j in range(len(s)):
            h = ('h', fr.act, ins.blk, ins.idx, e.it(fr, st, ins.blk), 'ret%d' % j, 'p')
            e.rng.setdefault(h, (1, 2 ** 62))
            st.mem[add(rets, C(8 * j))] = (h, 8, ('elem', PTR))
        return [(st, C(len(s))), (bad, C(-1))]

    def on_load(self, e, fr, st, ins, addr, size):
        r = root(addr)
        if r == self.ARGV and ins is not None:
            o = sub(addr, r)
            lo = e.truth(st, ('le', scale(o, -1)))
            hi = e.truth(st, ('le', sub(add(o, C(8)), scale(self.argc_t, 8))))
            if not lo or not hi:
                k = o[1] // 8 if isc(o) else '?'
                self.flag('args', e, fr, st, ins, 'argument %s is read, but there may be only as many as %s' % (
                    k + 1 if k != '?' else k, 'the caller gave' if self.argc < 0 else self.argc))
        elif r is not None and r[0] == 'loc':
            o = sub(addr, r)
            if not isc(o):
                return
            k = o[1] // self.psize
            it = st.mem.get(('any', ('item', r, k)))
            if it is None:
                if any(b[0] == 'any' and isinstance(b[1], tuple) and b[1][0] == 'item' and b[1][1] == r for b in st.mem):
                    self.flag('args', e, fr, st, ins, 'reads a parsed argument its format does not have')
                return
            po = o[1] % self.psize - self.o_pay
            if po < 0 or not isc(it[0]):
                return
            if it[0] == ZERO:
                self.flag('args', e, fr, st, ins, 'reads the value of optional argument %d although it was not given' % (k + 1))
                return
            ch = chr(it[0][1])
            lay = FMT[ch][1]
            want = lay.get(po)
            kd = 'p' if ins.ty == PTR else 'f' if ins.ty and ins.ty[0] == 'fp' else 'i'
            if want is None or want[0] != size or (want[1] != kd and 'f' in (want[1], kd)) or (want[1] == 'p') != (kd == 'p'):
                self.flag('args', e, fr, st, ins, 'reads argument %d, parsed as \'%s\', as something else' % (k + 1, ch))


def analyse_native(w, info, ti, tabs, f, argc, cap=None):
    h = NativeHooks(w, info, ti, tabs, f, argc)
    e = Engine(w.p, w.eff, h)
    if cap:
        e.o = Opts()
        e.o.cap, e.o.retcap = cap, cap
    e.max_steps = 400000
    h.argc_t = ZERO
    st, fr, args = h.start(e, f)
    args[1], args[3] = h.ARGV, h.RETS
    if argc >= 0:
        args[2] = C(argc)
    h.argc_t = args[2]
    h.args = args
    for j in range(argc if argc >= 0 else 0):
        a = ('s', fr.act, 'argv%d' % j, (), '', 'p')
        e.rng[a] = (1, 2 ** 62)
        st.mem[add(h.ARGV, C(8 * j))] = (a, 8, ('elem', PTR))
    try:
        rets = e.run(fr, args, st)
    except Budget:
        if not cap:
            return analyse_native(w, info, ti, tabs, f, argc, 6)
        return h, 0, 'budget'
    n = 0
    if not rets:
        h.flag('args', e, fr, st, None, 'cannot run with the %d arguments its table entry declares' % argc)
    for s, v in rets:
        if len(s.prop) > 2 or v is None:
            continue
        n += 1
        lo, hi = e.bounds(s, v)
        last = s.trail[1] if s.trail else None
        if lo > MAX_RETS:
            h.flag('rets', e, fr, s, last, 'returns more values than fit')
        if lo == hi and hi > 0:
            for j in range(hi):
                x = s.mem.get(add(h.RETS, C(8 * j)))
                if x is None and not e.partially(s, add(h.RETS, C(8 * j)), h.RETS):
                    h.flag('rets', e, fr, s, last, 'returns %d values, but result %d was never stored' % (hi, j + 1))
                elif x is not None and e.res(s, x[0]) == ZERO:
                    h.flag('rets', e, fr, s, last, 'returns a null pointer as result %d' % (j + 1))
    return h, n, 'ok'


# ---------------------------------------------------------------- the parser and the builder of results themselves
class LetterHooks(TypeHooks):
    """one letter of a format: what the first turn of the loop does with it"""
    def on_store(self, e, fr, st, ins, addr, val, size):
        if self.base is not None and root(addr) == self.base:
            o = sub(addr, self.base)
            if isc(o) and not any(e.it(fr, st, ins.blk)):
                self.stores.append((ins, o[1], size, e.res(st, val), st.clone()))

    def on_load(self, e, fr, st, ins, addr, size):
        if ins is not None and ins.a and ins.a[0][1][0] == 'l' and ins.a[0][1][1].startswith('vaarg') and not any(e.it(fr, st, ins.blk)):
            self.takes.append((ins, ins.ty))


def fmt_global(w, s):
    g = '!fmt:' + s
    if g not in w.p.globals:
        n = len(s) + 1
        w.p.globals[g] = Global(g, None, ('arr', n, I8), ('str', s + chr(0)), True, True)
    return ('g', g)


def run_letter(w, info, ti, f, args_of, base):
    h = LetterHooks(w, info, ti, f)
    h.stores, h.takes, h.base = [], [], base
    e = Engine(w.p, w.eff, h)
    e.max_steps = 100000
    st, fr, args = h.start(e, f)
    args_of(e, st, args)
    h.args = args
    try:
        e.run(fr, args, st)
    except Budget:
        return None
    h.e, h.fr = e, fr
    return h


def check_letters(w, info, ti, r):
    """parseArgs checks what it extracts; the letters mean what the callers assume"""
    types = {g.split(':')[-1][2:]: g for g in ti.types}
    f = w.p.functions.get('parseArgs')
    if f is None:
        raise Broken('parseArgs is gone')
    nh = NativeHooks(w, info, ti, None, f, -1)
    argv, pargs, obj = ('alloc', 0, 'argv', ()), ('alloc', 0, 'pargs', ()), ('s', 0, 'arg0', (), '', 'p')
    for ch, (tn, lay) in sorted(FMT.items()):
        def args_of(e, st, args):
            args[1], args[2], args[3], args[4] = argv, ONE, pargs, fmt_global(w, ch)
            e.rng[obj] = (1, 2 ** 62)
            st.mem[argv] = (obj, 8, ('elem', PTR))
        h = run_letter(w, info, ti, f, args_of, pargs)
        if h is None:
            r.note('parseArgs letter %s not decided' % ch)
            continue
        r.count('format_letters')
        got, bad = {}, False
        for ins, off, size, val, st in h.stores:
            where = w.p.where(ins)
            if off == nh.o_def:
                if tn is not None and not h.has(h.e, h.fr, st, obj, [types[tn]]):
                    r.add('parseArgs/%s/type' % ch, where, 'letters',
                          "parseArgs accepts an argument for '%s' without checking that it is a %s" % (ch, tn), trail(w.p, st))
                if h.e.truth(st, ('ne', val)) is False:
                    r.add('parseArgs/%s/defined' % ch, where, 'letters', "parseArgs marks an argument it was given for '%s' as missing" % ch)
                got['defined'] = True
            elif off >= nh.o_pay:
                kd = 'p' if ins.a[0][0] == PTR else 'f' if ins.a[0][0][0] == 'fp' else 'i'
                want = lay.get(off - nh.o_pay)
                if want != (size, kd):
                    r.add('parseArgs/%s/store' % ch, where, 'letters', "parseArgs stores the value for '%s' as another type than its readers expect" % ch)
                got[off - nh.o_pay] = True
        for o in list(lay) + ['defined']:
            if o not in got:
                r.add('parseArgs/%s/missing' % ch, '%s:%d' % (f.file, f.line), 'letters',
                      "parseArgs does not fill in what readers of '%s' use" % ch)
                break


def check_returns(w, info, ti, r):
    f = w.p.functions.get('returnValuesVA')
    if f is None:
        raise Broken('returnValuesVA is gone')
    rets = ('alloc', 0, 'rets', ())
    for ch, ty in sorted(RET.items()):
        def args_of(e, st, args):
            args[2], args[3] = rets, fmt_global(w, ch)
        h = run_letter(w, info, ti, f, args_of, rets)
        if h is None:
            r.note('returnValuesVA letter %s not decided' % ch)
            continue
        r.count('format_letters')
        got = {t for i, t in h.takes}
        if got != ({ty} if ty is not None else set()):
            r.add('returnValuesVA/%s' % ch, '%s:%d' % (f.file, f.line), 'letters', "the value for '%s' is taken from the arguments as another type than the callers pass" % ch)
        if not any(off == 0 for i, off, sz, v, s in h.stores):
            r.add('returnValuesVA/%s/store' % ch, '%s:%d' % (f.file, f.line), 'letters', "the result for '%s' is not stored" % ch)


def natives(w):
    tabs = Tables(w)
    return tabs, [(g, a) for g, s in sorted(tabs.argc.items()) for a in sorted(s)]


def decide_natives(kind):
    def run_(tier):
        w = World()
        info, ti = ErrInfo(w), TypeInfo(w)
        tabs, its = natives(w)

        def one(x):
            g, a = x
            f = w.p.functions[g]
            r = Result()
            h, n, status = analyse_native(w, info, ti, tabs, f, a)
            r.count('functions')
            r.count('outcomes', n)
            r.count('format_uses', h.formats)
            if status != 'ok':
                r.note('%s: not decided (%s)' % (g, status))
            seen = set()
            for (k, ins, what), st in h.bad2.items():
                if k != kind:
                    continue
                where = w.p.where(ins) if ins is not None else '%s:%d' % (f.file, f.line)
                if (where, what) in seen:
                    continue
                seen.add((where, what))
                r.add('%s/%s' % (g, what), where, kind, '%s %s' % (g, what), trail(w.p, st))
            r.sample('%s(%s arguments): %d outcomes' % (g, 'any number of' if a < 0 else a, n))
            return r
        res = Result()
        for r in pmap(one, its):
            res.merge(r)
        (check_letters if kind == 'args' else check_returns)(w, info, ti, res)
        res.need('functions', 30)
        res.need('format_letters', 4)
        return res
    return run_


args_ = decide_natives('args')
rets_ = decide_natives('rets')

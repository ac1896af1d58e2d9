"""A result that stands for a failure is never used: no path dereferences a
null pointer, nor passes one to a function that cannot take it."""
from errors import *

MAYNULL = {'fopen', 'opendir', 'readdir', 'getcwd', 'realpath', 'fdopen', 'tmpfile', 'fgets', 'fmemopen', 'freopen', 'strdup'}
NONNULL = {
    'fclose': (0,), 'fread': (0, 3), 'fwrite': (0, 3), 'fprintf': (0, 1), 'vfprintf': (0, 1), 'fputs': (0, 1), 'fputc': (1,),
    'fgets': (0, 2), 'getc': (0,), 'fgetc': (0,), 'feof': (0,), 'ferror': (0,), 'fseek': (0,), 'ftell': (0,), 'rewind': (0,),
    'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcpy': (0, 1), 'strncpy': (0, 1), 'strdup': (0,), 'strrchr': (0,),
    'strchr': (0,), 'memcmp': (0, 1), 'closedir': (0,), 'readdir': (0,), 'fopen': (0, 1), 'opendir': (0,), 'atoi': (0,),
    'snprintf': (2,), 'longjmp': (0,), 'fflush': (),
}


# every opcode has a row in the instruction table: decided by V01
ROW = {'Executable_GetInstrByOpcode', 'getInstrByOpcode'}


class NullHooks(ErrHooks):
    needs = {}       # (gid, param) -> bool

    def contract(self, e, fr, st, ins, f, args):
        if f.name in ROW and f.gid != self.fn.gid:
            e.havoc_call(fr, st, ins, [f.gid], args)
            v = e.retsym(fr, st, ins, f)
            if v is not None:
                e.assume(st, ('ne', v), True)
            return [(st, v)]
        return super().contract(e, fr, st, ins, f, args)

    def use(self, e, fr, st, ins, addr, what):
        if addr[0] == 'c' and 0 <= addr[1] < 4096:
            self.found.append((what, ins, st.clone()))
            self.dead(st)

    def dead(self, st):
        st.prop = st.prop[:2] + (True,)

    def on_load(self, e, fr, st, ins, addr, size):
        if ins is not None:
            self.use(e, fr, st, ins, addr, 'null pointer read')

    def on_store(self, e, fr, st, ins, addr, val, size):
        if ins is not None:
            self.use(e, fr, st, ins, addr, 'null pointer written')

    def on_call(self, e, fr, st, ins, f, args):
        if len(st.prop) > 2:
            return []
        r = super().on_call(e, fr, st, ins, f, args) if self.errp is not None else None
        if r is not None:
            return r
        if isinstance(f, str):
            for k in NONNULL.get(f, ()):
                if k < len(args):
                    self.use(e, fr, st, ins, e.res(st, args[k]), 'null pointer passed to ' + f)
            if f in ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'):
                if e.truth(st, ('le', sub(ONE, args[2]))) is True:
                    for k in (0, 1):
                        self.use(e, fr, st, ins, e.res(st, args[k]), 'null pointer passed to memcpy')
            if f in MAYNULL and ins.res is not None:
                bad = st.clone()
                a = e.sym(fr, st, ins, ins.ty)
                for k in EXT_WRITES.get(f, ()):
                    if k < len(args):
                        e.havoc_at(fr, st, ins, e.res(st, args[k]), None)
                e.assume(st, ('ne', a), True)
                return [(st, a), (bad, ZERO)]
        elif f is not None:
            for k, a in enumerate(args):
                if e.res(st, a) == ZERO and k < len(f.params) and f.params[k][0] == PTR and self.requires(f, k):
                    self.found.append(('null passed to %s as its argument %d' % (f.gid, k + 1), ins, st.clone()))
                    self.dead(st)
                    return []
        elif f is None and ins.x[0] == 'l':
            pass
        return None

    def requires(self, f, k):
        """every path of the callee dies when this argument is null"""
        key = (f.gid, k)
        if key in self.needs:
            return self.needs[key]
        self.needs[key] = False
        h = NullHooks(self.w, self.i, f, None)
        e = Engine(self.w.p, self.w.eff, h)
        e.max_steps = 60000
        st = St()
        st.prop = (False, False)
        act = e.act(0, f.gid, ())
        fr = Frame(f, act, e.cfg(f), 0, None, None)
        args = e.params(fr)
        args[k] = ZERO
        h.begin(e, fr, st, f, args)
        e.steps = 0
        try:
            rets = e.run(fr, args, st)
            self.needs[key] = all(len(s.prop) > 2 for s, v in rets)
        except Budget:
            pass
        return self.needs[key]

    def begin(self, e, fr, st, f, args):
        self.locp = self.errp = self.cell = None
        acc = self.i.acc.get(f.gid)
        if acc is not None:
            err = self.i.ptr(e, fr, st, acc, args)
            self.errp = err
            self.cell = self.errcell(err)
            self.set_error(e, fr, st, None, err, ZERO)

    def loaded(self, e, fr, st, ins, addr, val):
        super().loaded(e, fr, st, ins, addr, val)

    def reported(self, e, fr, st, ins, args):
        pass

    def jump(self, e, fr, st, ins):
        pass


def analyse_null(w, info, f, cap=None):
    h = NullHooks(w, info, f, None, OPAQUE - {f.name})
    h.needs = {}
    e = Engine(w.p, w.eff, h)
    if cap:
        e.o = Opts()
        e.o.cap, e.o.retcap = cap, cap
    e.max_steps = 300000
    st = St()
    st.prop = (False, False)
    act = e.act(0, f.gid, ())
    fr = Frame(f, act, e.cfg(f), 0, None, None)
    args = e.params(fr)
    h.begin(e, fr, st, f, args)
    e.steps = 0
    try:
        rets = e.run(fr, args, st)
    except Budget:
        if not cap:
            return analyse_null(w, info, f, 6)
        return [], 0, 'budget', e
    return [x for x in h.found if x[0] not in TEXT], len(rets), 'ok', e


def decide_nulls(tier):
    w = World(asserts=True)
    info = ErrInfo(w)

    def one(f):
        r = Result()
        found, n, status, e = analyse_null(w, info, f)
        r.count('functions')
        r.count('outcomes', n)
        r.count('blocks', len(e.stats['blocks']))
        if status != 'ok':
            r.note('%s: not decided (%s)' % (f.gid, status))
            r.count('functions_not_decided')
        seen = set()
        for what, ins, st in found:
            key = '%s/%s' % (ins.fn.gid, what)
            k = (key, w.p.where(ins))
            if k in seen:
                continue
            seen.add(k)
            r.add(key + ' in ' + f.gid, w.p.where(ins), 'null', '%s: %s' % (f.gid, what), trail(w.p, st))
        return r
    res = Result()
    for r in pmap(one, [f for f in w.p.functions.values() if f.blocks]):
        res.merge(r)
    res.need('functions', 300)
    return res

"""L01: what the library takes it gives back."""
from heap import *

# what gives something that is owned, and what takes it back
ACQ = {'malloc': 'memory', 'calloc': 'memory', 'realloc': 'memory', 'strdup': 'memory', 'fopen': 'file', 'fdopen': 'file', 'opendir': 'directory',
       'Source_FromFile': 'source', 'Source_FromString': 'source', 'Source_Copy': 'source',
       'compile': 'executable', 'assemble': 'executable', 'codegen': 'executable', 'Executable_Copy': 'executable', 'ExeBuilder_Finalize': 'executable', 'CodegenContext_MakeExecutableAndFree': 'executable',
       'BPAlloc_Init': 'pool', 'BPAlloc_Init2': 'pool', 'Heap_New': 'heap', 'Stack_New': 'stack', 'TimingTable_new': 'table', 'Runtime_New': 'runtime', 'CodegenContext_New': 'context'}
REL = {'free': 'memory', 'realloc': 'memory', 'fclose': 'file', 'closedir': 'directory', 'Source_Free': 'source', 'Executable_Free': 'executable', 'BPAlloc_Free': 'pool', 'Heap_Free': 'heap', 'Stack_Free': 'stack',
       'TimingTable_free': 'table', 'Runtime_Free': 'runtime', 'CodegenContext_Free': 'context', 'CodegenContext_MakeExecutableAndFree': 'context'}
COUNTED = ('source', 'executable')      # taken again by a copy
NAMES = {'memory': 'memory', 'file': 'a file', 'directory': 'a directory', 'source': 'a source', 'executable': 'code', 'pool': 'a pool of memory', 'heap': 'a heap', 'stack': 'a stack', 'table': 'a table of timings',
         'runtime': 'a runtime', 'context': 'a context'}
SKIP = ('src/lib/compiler/parse.c', 'src/lib/compiler/serialize.c', 'src/lib/objects/', 'src/lib/builtins/', 'src/cli/', 'start_n.c', 'src/lib/utils/bpalloc.c')


class Own(AllocHooks):
    keeps = {}

    fresh = frozenset()

    def apart(self, e, a, b):
        return super().apart(e, a, b) or a != b and (a[0] == b[0] == 'loc' or a in self.fresh and b[0] in ('s', 'm', 'loc') or b in self.fresh and a[0] in ('s', 'm', 'loc'))

    def tok(self, e, st, what, kind='p', lo=None, hi=None):
        v = SlotHooks.tok(self, e, st, what, kind, lo, hi)
        if kind == 'p':
            region(e, v, 64 + len(st.prop or ()))
        if what.split()[0] in ('malloc', 'calloc', 'realloc', 'strdup'):
            self.fresh = self.fresh | {v}
        return v

    def inner(self, f):
        """helpers of a file are followed with their callers, if they take something or are small"""
        if f.gid not in self.small:
            seen, todo, n, hit, jumps = {f.gid}, [f], 0, False, False
            while todo:
                g = todo.pop()
                n += sum(1 for _ in g.instrs())
                for i in g.calls():
                    if i.x[0] != 'g':
                        continue
                    c = i.x[1].split(':')[-1]
                    hit |= c in ACQ or c in REL
                    jumps |= 'jmp' in c or c == f.name
                    h = self.w.p.functions.get(i.x[1])
                    if h is not None and h.blocks and h.internal and h.gid not in seen:
                        seen.add(h.gid)
                        todo.append(h)
            self.small[f.gid] = not jumps and n < (400 if hit else 60)
        return self.small[f.gid]

    small = {}

    def by_pointer(self, e, fr, st, ins, fp, ts, args):
        return SlotHooks.by_pointer(self, e, fr, st, ins, fp, ts, args)

    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        own = fr.depth == 0 and fr.fn.name == n
        if n in ('_Error_Report', '_Error_Report2'):
            self.set_error(e, fr, st, ins, R[0], ONE)
            self.note(st, 'report', R[0])
            return [(st, None)]
        if n in ('_Error_Free', 'Error_Free', 'Error_Init', '_Error_Init', 'Error_Init2'):
            c = getattr(self, 'occurred', None)
            if c is not None:
                e.put(fr, st, ins, add(R[0], C(c[0])), ZERO, c[1], c[2])
            return [(st, None)]
        if n == 'realloc':
            no = st.clone()
            self.note(no, 'take', n, R, ZERO)
            v = self.tok(e, st, 'realloc %d' % len(st.prop or ()))
            e.assume(st, ('ne', v), True)
            self.note(st, 'give', n, R[0])
            self.note(st, 'take', n, R, v)
            for b in [b for b in st.mem if b[0] != 'any' and isc(sub(b, R[0]))]:
                st.mem[add(sub(b, R[0]), v)] = st.mem[b]
            return [(st, v), (no, ZERO)]
        if n in ('malloc', 'calloc', 'strdup', 'fopen', 'fdopen', 'opendir'):
            no = st.clone()
            self.note(no, 'take', n, R, ZERO)
            v = self.tok(e, st, '%s %d' % (n, len(st.prop or ())))
            e.assume(st, ('ne', v), True)
            if n == 'calloc':
                st.zero = st.zero | {v}
            self.note(st, 'take', n, R, v)
            return [(st, v), (no, ZERO)]
        if n in ('free', 'fclose', 'closedir'):
            self.note(st, 'give', n, R[0])
            return [(st, e.sym(fr, st, ins, ins.ty) if ins.res else None)]
        if n in ('setjmp', '_setjmp', '__sigsetjmp', 'sigsetjmp'):
            j = st.clone()
            self.note(j, 'jumped')
            return [(st, ZERO), (j, ONE)]
        if isinstance(f, str) or f is None:
            return super().on_call(e, fr, st, ins, f, args)
        if n in ('memcpy', 'memmove', 'memset'):
            return super().on_call(e, fr, st, ins, f, args)
        if own or f.internal and self.inner(f):
            return None
        if n in REL and n not in ACQ:
            self.note(st, 'give', n, R[0])
            return [(st, e.sym(fr, st, ins, ins.ty) if ins.res else None)]
        # results in variables of the caller
        for a in R:
            r = root(a)
            if r is not None and r[0] == 'loc':
                for b in [b for b in st.mem if b[0] != 'any' and isc(sub(b, a)) and sub(b, a)[1] >= 0]:
                    # the callee may have put something else there, and given this back
                    v = e.res(st, st.mem[b][0])
                    if any(x[0] == 'take' and e.res(st, x[3]) == v for x in st.prop or ()):
                        self.note(st, 'slot', 'rewritten', (v,))
                    del st.mem[b]
        out = self.answers(e, fr, st, ins, f, n, R)
        res = []
        for s2, v in out:
            if n in REL:
                self.note(s2, 'give', n, R[0])
            if n in ACQ:
                self.note(s2, 'take', n, R, v)
            res.append((s2, v))
        return res

    def answers(self, e, fr, st, ins, f, n, R):
        w = self.w
        kind, k = w.retkind(f), w.err_param(f)
        if not ins.res:
            self.note(st, 'call', n, R, None)
            return [(st, None)]
        if kind == 'ptr' and (n in ACQ or k is not None):
            no = st.clone()
            self.note(no, 'call', n, R, ZERO)
            if k is not None:
                self.set_error(e, fr, no, ins, R[k], ONE)
            v = self.tok(e, st, '%s %d' % (n, len(st.prop or ())))
            e.assume(st, ('ne', v), True)
            self.note(st, 'call', n, R, v)
            return [(st, v), (no, ZERO)]
        if k is not None and kind in ('bool', 'int'):
            no = st.clone()
            z = ZERO if kind == 'bool' else C(-1)
            self.note(no, 'call', n, R, z)
            self.set_error(e, fr, no, ins, R[k], ONE)
            v = ONE if kind == 'bool' else self.tok(e, st, '%s %d' % (n, len(st.prop or ())), 'i', 0, 2 ** 31 - 1)
            self.note(st, 'call', n, R, v)
            return [(st, v), (no, z)]
        if kind == 'bool':
            no = st.clone()
            self.note(no, 'call', n, R, ZERO)
            self.note(st, 'call', n, R, ONE)
            return [(st, ONE), (no, ZERO)]
        v = e.sym(fr, st, ins, ins.ty)
        self.note(st, 'call', n, R, v)
        return [(st, v)]


def keeping(w):
    """for each function: the parameters it stores, or hands to who stores them"""
    fs = [f for f in w.p.functions.values() if f.blocks]
    flow = {}
    for f in fs:
        al = {n: {k} for k, (t, n) in enumerate(f.params)}
        for _ in range(4):
            for i in f.instrs():
                if i.op in ('phi', 'select', 'bitcast', 'gep') and i.res:
                    src = [v for v, b in i.x] if i.op == 'phi' else [a[1] for a in i.a]
                    for v in src[:1] if i.op == 'gep' else src:
                        k = key(v)
                        if k in al:
                            al.setdefault(i.res, set()).update(al[k])
        flow[f.gid] = al
    keeps = {f.gid: set() for f in fs}
    ch = True
    while ch:
        ch = False
        for f in fs:
            al, new = flow[f.gid], set(keeps[f.gid])
            for i in f.instrs():
                if i.op == 'store':
                    new |= al.get(key(i.a[0][1]), set())
                elif i.op == 'call':
                    gs = [i.x[1]] if i.x[0] == 'g' else w.eff.ind.get(i, ())
                    for g in gs:
                        for k, a in enumerate(i.a):
                            if k in keeps.get(g, ()):
                                new |= al.get(key(a[1]), set())
            if new != keeps[f.gid]:
                keeps[f.gid] = new
                ch = True
    return keeps


def key(v):
    return v[1] if v and len(v) > 1 and v[0] == 'l' else None


BASIC = {'malloc', 'calloc', 'realloc', 'strdup', 'fopen', 'fdopen', 'opendir', 'free', 'fclose', 'closedir'}
# makers and breakers whose parameter goes with the call
ENDS = {'Runtime_Free', 'TimingTable_free', 'CodegenContext_Free', 'CodegenContext_MakeExecutableAndFree', 'Executable_Free', 'Source_Free', 'Stack_Free', 'BPAlloc_Free', 'Heap_Free', 'Error_Free'}


def takers(w):
    """the functions that take or give back something themselves"""
    out = []
    X = set(ACQ) | set(REL)
    for f in w.p.functions.values():
        if not f.blocks or not f.file or any(x in f.file for x in SKIP) or f.name in NOT:
            continue
        if any(i.x[0] == 'g' and i.x[1].split(':')[-1] in X for i in f.calls()):
            out.append(f)
    return sorted(out, key=lambda f: (f.file, f.line))


# followed with others: what they do is checked where they are used, or by another property
NOT = {'runInstruction', 'default_fn_malloc', 'default_fn_free', 'BPAlloc_Init'}


def args_of(w, f):
    out = []
    cts = w.p.param_ctypes(f) or []
    for k, (t, n) in enumerate(f.params):
        ct = cts[k + 1] if len(cts) > k + 1 else ''
        if t[0] == 'ptr':
            nul = any(i.op == 'icmp' and any(key(a[1]) == n for a in i.a) and any(a[1] == ('c', 0) for a in i.a) for i in f.instrs())
            out.append(n + ':q' if nul else n)
        elif t == ('int', 1):
            out.append(n + ':b')
        elif t[0] == 'int':
            out.append(n + (':i' if t[1] <= 32 else ':u'))
        else:
            out.append(n + ':f')
    return out


def owned(w, ob, res, tier):
    s = U(w, ob, res, 'owned')
    keeps = keeping(w)
    byname = {}
    for f in w.p.functions.values():
        byname.setdefault(f.name, f)
    for f in takers(w):
        follow(w, s, res, f, keeps, byname, tier)
    res.need('takers', 15)


def follow(w, s, res, f, keeps, byname, tier):
    m = s.follow(f, args_of(w, f), pre=regions(w, f), hooks=Own, turns=3 if tier != 'thorough' else 5, loads=8)
    if m.undecided:
        res.note('%s: %s' % (f.name, m.undecided))
        return
    res.count('takers')
    for p in m.paths:
        res.count('paths')
        took, gave, kept = [], [], []
        for k, x in enumerate(p.ev):
            if x[0] == 'take' and p.res(x[3]) != ZERO:
                took.append((k, x[1], p.res(x[3])))
            elif x[0] == 'give':
                t = p.res(x[2])
                if t != ZERO:
                    gave.append((k, x[1], t))
            elif x[0] == 'call':
                g = byname.get(x[1])
                if g is not None and p.res(x[3]) not in (ZERO, C(-1)) if x[3] is not None else g is not None:
                    for q in keeps.get(g.gid, ()):
                        if q < len(x[2]):
                            kept.append((k, p.res(x[2][q])))
            elif x[0] == 'slot':
                for a in x[2]:
                    kept.append((k, p.res(a)))
        res.count('taken', len(took))
        res.count('given back', len(gave))
        # released twice, or used afterwards
        for k, n, t in gave:
            for k2, n2, t2 in gave:
                if k2 > k and t2 == t and not any(v == t and k < j < k2 for j, _, v in took) and REL[n] == REL[n2] and not counted(p, n, t, took, k):
                    s.bad(m, p, 'twice %s' % n2, '%s is given back twice' % kind_of(n2))
            if REL[n] == 'memory':
                for x in p.ev[k + 1:]:
                    if x[0] in ('load', 'store') and part(p.res(x[1]), t) and not any(v == t and j > k for j, _, v in took):
                        s.bad(m, p, 'used %s' % n, 'memory is used after it was given back')
                        break
            for x in p.ev[k + 1:]:
                if x[0] == 'call' and any(p.res(a) == t for a in x[2]) and REL[n] != 'source' and not counted(p, n, t, took, k):
                    s.bad(m, p, 'passed %s' % n, '%s is used after it was given back' % kind_of(n))
                    break
        # kept or lost
        live = {}
        for k, n, v in took:
            if any(t == v and j > k for j, _, t in gave):
                continue
            live[v] = (k, n)
        ok = set()
        more = True
        while more:
            more = False
            for v, (k, n) in live.items():
                if v in ok:
                    continue
                if p.ret is not None and part(p.res(p.ret), v) or ACQ[n] != 'pool' and any(t == v for j, t in kept):
                    ok.add(v)
                    more = True
                    continue
                for a, c in p.st.mem.items():
                    if a[0] == 'any' or p.res(c[0]) != v and not part(p.res(c[0]), v):
                        continue
                    r = root(p.res(a))
                    if r is None or r[0] == 'loc':
                        continue
                    if r in live and r not in ok or r not in live and any(t == r for _, _, t in gave):
                        continue
                    ok.add(v)
                    more = True
                    break
        for v, (k, n) in live.items():
            res.count('obligations')
            if v not in ok:
                s.bad(m, p, 'lost %s' % n, '%s taken with %s is neither given back nor kept on this path' % (kind_of(n), n))


def counted(p, n, t, took, k):
    return False


def part(a, v):
    d = sub(a, v)
    return isc(d)


def kind_of(n):
    return NAMES.get(REL.get(n) or ACQ.get(n), n)


def breakers(w, ob, res):
    """what a maker stores in what it makes, the breaker gives back"""
    s = U(w, ob, res, 'breakers')
    for mk, br, struct, base in (('Runtime_New', 'Runtime_Free', 'xRuntime', 'free'), ('TimingTable_new', 'TimingTable_free', 'TimingTable', 'free')):
        f, g = s.fn(mk), s.fn(br)
        m = s.follow(f, args_of(w, f), hooks=Own, pre=regions(w, f), turns=3, loads=8)
        held = {}
        for p in m.paths:
            if p.ret is None or p.res(p.ret) == ZERO:
                continue
            made = {p.res(x[3]): x[1] for x in p.ev if x[0] == 'take'}
            for a, c in p.st.mem.items():
                if a[0] == 'any':
                    continue
                v = p.res(c[0])
                d = sub(p.res(a), p.res(p.ret))
                if v in made and v != p.res(p.ret) and isc(d):
                    held[d[1]] = made[v]
            res.count('makers')
        if struct == 'TimingTable':
            held[s.off(struct, 'entries')[1]] = 'realloc'       # as it grows
        names = {o: n for n, o, ct, z in ob.members('struct.' + struct)}
        b = args_of(w, g)
        self = b[0].split(':')[0]
        m = s.follow(g, [self], hooks=Own, turns=4, loads=8)
        for p in m.paths:
            gave = [(k, x[1], p.res(x[2])) for k, x in enumerate(p.ev) if x[0] == 'give']
            for o, n in sorted(held.items()):
                x = ('m', add(m[self], C(o)), 0, 8, 'p')
                hit = [k for k, q, v in gave if v == x and REL[q] == ACQ[n]]
                res.count('obligations')
                if len(hit) != 1 and p.may(('ne', x)):
                    s.bad(m, p, 'member %s' % names[o], 'the %s of what is freed is %s' % (names[o], 'not given back' if not hit else 'given back twice'))
            hit = [k for k, q, v in gave if v == m[self]]
            if len(hit) != 1:
                s.bad(m, p, 'itself', 'what is freed is not given back' if not hit else 'what is freed is given back twice')
            elif hit and any(k > hit[0] for k, q, v in gave):
                x = [v for k, q, v in gave if k > hit[0]]
                if any(part_of(v, m[self]) for v in x):
                    s.bad(m, p, 'order', 'a part is given back after the memory that holds it')


def part_of(v, base):
    return v[0] == 'm' and isc(sub(v[1], base))


def entries(w, ob, res):
    """the entries of a table of timings: what each holds is given back"""
    s = U(w, ob, res, 'entries')
    z = s.size('FunctionExecutionSummary')
    f = s.fn('TimingTable_free')
    for n in (0, 1, 2, 3):
        def pre(m, st):
            put(st, rt(m, 'table', 'TimingTable', 'used'), C(n))
        m = s.follow(f, ['table'], pre=pre, hooks=Own, turns=n + 3, loads=8)
        E = rt(m, 'table', 'TimingTable', 'entries')
        for p in m.paths:
            gave = [(x[1], p.res(x[2])) for x in p.ev if x[0] == 'give']
            want = []
            for k in range(n):
                for how, mem in (('free', 'name'), ('Source_Free', 'src')):
                    v = ('m', add(E, C(k * z + s.member('FunctionExecutionSummary', mem)[0])), 0, 8, 'p')
                    want.append((how, v))
            res.count('obligations', len(want))
            for how, v in want:
                c = sum(1 for g in gave if g == (how, v))
                if c != 1 and p.may(('ne', v)):
                    s.bad(m, p, 'entry', 'the name or the source of an entry is %s' % ('not given back' if not c else 'given back twice'))


def context(w, ob, res):
    """the pool of a context is its own, or the caller's"""
    s = U(w, ob, res, 'context')
    f = s.fn('CodegenContext_Free')
    for own in (0, 1):
        def pre(m, st):
            put(st, rt(m, 'ctx', 'CodegenContext', 'own_alloc'), C(own))
        m = s.follow(f, ['ctx'], pre=pre, hooks=Own)
        A = rt(m, 'ctx', 'CodegenContext', 'alloc')
        for p in m.paths:
            c = [p.res(x[2]) for x in p.ev if x[0] == 'give' and REL[x[1]] == 'pool']
            res.count('obligations')
            if own and c != [A] or not own and c:
                s.bad(m, p, 'pool', 'the pool made for a context is not given back once' if own else 'the pool of the caller is given back')


def ends(w, ob, res):
    """what makes code of a context frees the context, unless it leaves by a jump"""
    s = U(w, ob, res, 'ends')
    f = s.fn('CodegenContext_MakeExecutableAndFree')
    m = s.follow(f, args_of(w, f), hooks=Own)
    for p in m.paths:
        res.count('obligations')
        b = rt(m, 'ctx', 'CodegenContext', 'alloc')
        own = rt(m, 'ctx', 'CodegenContext', 'own_alloc')
        c = [x for x in p.ev if x[0] == 'give' and (REL[x[1]] == 'context' and p.res(x[2]) == m['ctx'] or REL[x[1]] == 'pool' and p.res(x[2]) == b)]
        if len(c) > 1 or not c and p.may(('ne', own)):
            s.bad(m, p, 'context', 'the context is not freed with the code made' if not c else 'the context is freed twice')


def regions(w, f):
    def pre(m, st):
        for k, n in enumerate(args_of(w, f)):
            if ':' not in n:
                region(m.e, m[n], 1 + k)
    return pre


def owning_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    owned(w, ob, res, tier)
    breakers(w, ob, res)
    entries(w, ob, res)
    context(w, ob, res)
    ends(w, ob, res)
    res.need('taken', 400)
    res.need('given back', 400)
    return res

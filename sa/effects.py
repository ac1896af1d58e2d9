"""Flow-insensitive whole-program facts: call graph with resolved indirect
calls, which memory a function may write, natural loops, liveness."""
from ir import *

FRESH = {'malloc', 'calloc', 'realloc', 'Heap_Malloc', 'Heap_RawMalloc', 'BPAlloc_Malloc', 'strdup'}

# external functions that write through their pointer arguments: which ones
EXT_WRITES = {
    'memcpy': [0], 'memmove': [0], 'memset': [0], 'strcpy': [0], 'strncpy': [0], 'strcat': [0],
    'snprintf': [0], 'sprintf': [0], 'vsnprintf': [0, 3], 'fread': [0], 'getcwd': [0], 'realpath': [1],
    'fmemopen': [0], 'read': [1], 'recv': [1], 'accept': [1, 2], 'memcpy.inline': [0], 'getaddrinfo': [3],
    'inet_pton': [2], 'strtod': [1], 'strtoll': [1], 'strtol': [1], 'fgets': [0], 'time': [0], 'stat': [1],
    'fstat': [1], '_setjmp': [0], 'getsockname': [1, 2],
}


def extname(n):
    if n.startswith('llvm.memcpy'):
        return 'memcpy'
    if n.startswith('llvm.memset'):
        return 'memset'
    if n.startswith('llvm.memmove'):
        return 'memmove'
    return n


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.addr_taken = {}
        self._defs = {}
        self._collect_tables()
        self._callgraph()
        self._mods()

    # ---- definitions
    def defs(self, fn):
        d = self._defs.get(fn.gid)
        if d is None:
            d = {}
            for i in fn.instrs():
                if i.res is not None:
                    d[i.res] = i
            self._defs[fn.gid] = d
        return d

    def param_index(self, fn, name):
        for k, (t, n) in enumerate(fn.params):
            if n == name:
                return k
        return None

    # ---- function pointers stored in constant tables, by struct field
    def _scan_init(self, ty, v, out):
        if v is None:
            return
        if v[0] == 'agg':
            for k, (t, x) in enumerate(v[1]):
                if t == PTR and x[0] == 'g' and x[1] in self.p.functions:
                    if ty[0] in ('struct', 'lit', 'packed'):
                        key = (ty[1] if ty[0] == 'struct' else 'lit', k)
                    else:
                        key = ('arr', 0)
                    out.setdefault(key, set()).add(x[1])
                else:
                    self._scan_init(t, x, out)

    def _collect_tables(self):
        p = self.p
        self.slots = {}
        for g in p.globals.values():
            if g.init is not None:
                self._scan_init(g.ty, g.init, self.slots)
        taken = set()

        def val(v):
            if not v:
                return
            if v[0] == 'g' and v[1] in p.functions:
                taken.add(v[1])
            elif v[0] == 'agg':
                for t, x in v[1]:
                    val(x)
        for g in p.globals.values():
            val(g.init)
        for f in p.functions.values():
            for i in f.instrs():
                for t, v in i.a:
                    val(v)
                if i.op == 'phi':
                    for v, b in i.x:
                        val(v)
                # function pointers stored to struct fields
                if i.op == 'store' and i.a[0][1][0] == 'g' and i.a[0][1][1] in p.functions:
                    k = self.field_of(f, i.a[1][1])
                    if k:
                        self.slots.setdefault(k, set()).add(i.a[0][1][1])
        self.addr_taken = taken

    def field_of(self, fn, v):
        """(struct, field index) a pointer operand was computed from, if it is a struct gep"""
        if v[0] != 'l':
            return None
        d = self.defs(fn).get(v[1])
        if d is None:
            return None
        if d.op == 'gep' and d.x[0] == 'struct' and len(d.a) >= 3:
            t = d.x
            for (ity, iv) in d.a[2:]:
                if t[0] == 'struct' and iv[0] == 'c':
                    last = (t[1], iv[1])
                    t = self.p.fields(t)[iv[1]]
                elif t[0] == 'arr':
                    t = t[2]
                else:
                    break
            return last
        return None

    def slot_targets(self, key):
        s = self.slots.get(key)
        return s

    def _fpflow(self):
        """which functions can each function-pointer field / parameter / SSA value hold"""
        p = self.p
        F = {}          # node -> set of functions
        E = {}          # node -> set of nodes it flows to

        def edge(a, b):
            E.setdefault(a, set()).add(b)

        def node(fn, v):
            if v[0] == 'g':
                if v[1] in p.functions:
                    n = ('fn', v[1])
                    F.setdefault(n, set()).add(v[1])
                    return n
                return ('gv', v[1])
            if v[0] == 'l':
                return ('v', fn.gid, v[1])
            return None
        for k, ts in self.slots.items():
            F.setdefault(('field', k), set()).update(ts)
        for fn in p.functions.values():
            for i in fn.instrs():
                if i.op == 'store' and i.a[0][0] == PTR:
                    s_ = node(fn, i.a[0][1])
                    k = self.field_of(fn, i.a[1][1])
                    if s_ and k:
                        edge(s_, ('field', k))
                    elif s_ and i.a[1][1][0] == 'l':
                        edge(s_, ('cell', fn.gid, i.a[1][1][1]))
                elif i.op == 'load' and i.ty == PTR:
                    k = self.field_of(fn, i.a[0][1])
                    if k:
                        edge(('field', k), ('v', fn.gid, i.res))
                    elif i.a[0][1][0] == 'l':
                        edge(('cell', fn.gid, i.a[0][1][1]), ('v', fn.gid, i.res))
                elif i.op == 'phi' and i.ty == PTR:
                    for x, b in i.x:
                        s_ = node(fn, x)
                        if s_:
                            edge(s_, ('v', fn.gid, i.res))
                elif i.op == 'select' and i.ty == PTR:
                    for x in (i.a[1][1], i.a[2][1]):
                        s_ = node(fn, x)
                        if s_:
                            edge(s_, ('v', fn.gid, i.res))
                elif i.op == 'ret' and i.a and i.a[0][0] == PTR:
                    s_ = node(fn, i.a[0][1])
                    if s_:
                        edge(s_, ('ret', fn.gid))
                elif i.op == 'extractvalue' and i.a[0][1][0] == 'l':
                    edge(('v', fn.gid, i.a[0][1][1]), ('v', fn.gid, i.res))
        self._F, self._E = F, E
        self._node = node
        # union fields are reached as members of the enclosing struct: same
        # union type name in different units
        done = set()
        while True:
            work = [(n, set(s_)) for n, s_ in F.items()]
            while work:
                n, new = work.pop()
                for m in E.get(n, ()):
                    d = new - F.setdefault(m, set())
                    if d:
                        F[m] |= d
                        work.append((m, d))
            # calls
            added = False
            for fn in p.functions.values():
                for i in fn.calls():
                    ts = [i.x[1]] if i.x[0] == 'g' else F.get(node(fn, i.x), ()) if node(fn, i.x) else ()
                    for t in ts:
                        if t not in p.functions or (i, t) in done:
                            continue
                        done.add((i, t))
                        added = True
                        g = p.functions[t]
                        for (aty, av), (pty, pn) in zip(i.a, g.params):
                            if aty == PTR:
                                s_ = node(fn, av)
                                if s_:
                                    edge(s_, ('v', t, pn))
                        if i.res is not None:
                            edge(('ret', t), ('v', fn.gid, i.res))
            if not added:
                break

    def indirect(self, ins):
        """candidate functions of an indirect call"""
        n = self._node(ins.fn, ins.x)
        out = set(self._F.get(n, ())) if n else set()
        # a load through a field that only initialisers of anonymous unions fill
        v = ins.x
        d = self.defs(ins.fn).get(v[1]) if v[0] == 'l' else None
        k = self.field_of(ins.fn, d.a[0][1]) if d is not None and d.op == 'load' else None
        if k is None or not out:
            pass
        return {g for g in out if len(self.p.functions[g].params) == len(ins.a) or self.p.functions[g].vararg}

    def _callgraph(self):
        # tables of native functions: the union member is loaded through the
        # enclosing slot type, so give every anonymous union one identity
        un = set()
        for k, ts in list(self.slots.items()):
            if k[0].startswith('union.anon'):
                un |= {t for t in ts if len(self.p.functions[t].params) == 5}
        self.native = un
        for sid, fs in self.p.structs.items():
            if sid.split('@')[0] == 'struct.StaticMapSlot':
                for k, t in enumerate(fs):
                    if t[0] == 'struct' and t[1].startswith('union.'):
                        self.slots.setdefault((sid, k), set()).update(un)
        self._fpflow()
        self.callees = {}
        self.externs = {}
        self.ind = {}
        for f in self.p.functions.values():
            cs, ex = set(), set()
            for i in f.calls():
                if i.x[0] == 'g':
                    if i.x[1] in self.p.functions:
                        cs.add(i.x[1])
                    else:
                        ex.add(extname(i.x[1]))
                else:
                    t = self.indirect(i)
                    self.ind[i] = t
                    cs |= t
            self.callees[f.gid] = cs
            self.externs[f.gid] = ex
        self.callers = {}
        for g, cs in self.callees.items():
            for c in cs:
                self.callers.setdefault(c, set()).add(g)

    def reach(self, roots):
        seen = set()
        work = list(roots)
        while work:
            g = work.pop()
            if g in seen:
                continue
            seen.add(g)
            work += list(self.callees.get(g, ()))
        return seen

    def reachers(self, targets):
        """functions from which one of the targets can be reached"""
        seen = set()
        work = list(targets)
        while work:
            g = work.pop()
            if g in seen:
                continue
            seen.add(g)
            work += list(self.callers.get(g, ()))
        return seen

    # ---- what a function may write
    def roots(self, fn, v, depth=0, seen=None):
        """set of ('alloca',name) ('param',i,off|None) ('global',g) ('fresh',) ('load',tag) ('other',) for a pointer"""
        if seen is None:
            seen = set()
        if v[0] == 'g':
            return {('global', v[1])}
        if v[0] in ('c', 'undef', 'zero'):
            return set()
        if v[0] == 'cegep':
            return self.roots(fn, v[2][0][1], depth, seen)
        if v[0] != 'l':
            return {('other',)}
        if v in seen:
            return set()
        seen.add(v)
        d = self.defs(fn).get(v[1])
        if d is None:
            return {('param', self.param_index(fn, v[1]), 0)}
        if d.op == 'alloca':
            return {('alloca', v[1])}
        if d.op == 'gep':
            r = self.roots(fn, d.a[0][1], depth, seen)
            off = self.const_off(d)
            out = set()
            for x in r:
                if x[0] == 'param':
                    x = ('param', x[1], None if (off is None or x[2] is None) else x[2] + off)
                out.add(x)
            return out
        if d.op == 'phi':
            out = set()
            for x, b in d.x:
                out |= self.roots(fn, x, depth, seen)
            return out
        if d.op == 'select':
            return self.roots(fn, d.a[1][1], depth, seen) | self.roots(fn, d.a[2][1], depth, seen)
        if d.op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            return self.roots(fn, d.a[0][1], depth, seen)
        if d.op == 'call':
            if d.x[0] == 'g':
                n = d.x[1]
                f = self.p.functions.get(n)
                if (f.name if f else n) in FRESH:
                    return {('fresh',)}
            return {('other',)}
        if d.op == 'load':
            return {('load', self.field_of(fn, d.a[0][1]))}
        return {('other',)}

    def const_off(self, d):
        off = 0
        t = d.x
        first = True
        for ity, iv in d.a[1:]:
            if iv[0] != 'c':
                return None
            if first:
                off += iv[1] * self.p.size(t)
                first = False
            elif t[0] in ('arr', 'vec'):
                off += iv[1] * self.p.size(t[2])
                t = t[2]
            else:
                off += self.p.offset(t, iv[1])
                t = self.p.fields(t)[iv[1]]
        return off

    def tag(self, fn, v):
        """abstract location written/read through a pointer operand"""
        k = self.field_of(fn, v)
        if k:
            return k
        if v[0] == 'l':
            d = self.defs(fn).get(v[1])
            if d is not None and d.op == 'gep':
                if d.x[0] == 'int' or d.x[0] == 'ptr' or d.x[0] == 'fp':
                    # element of an array: of a struct field or behind a pointer
                    b = self.field_of(fn, d.a[0][1])
                    if b:
                        return b
                    return ('elem', d.x)
                if d.x[0] == 'arr':
                    b = self.field_of(fn, d.a[0][1])
                    if b:
                        return b
                    return ('elem', d.x[2])
        return ('raw', None)

    def _mods(self):
        self.mods = {g: set() for g in self.p.functions}
        self.pw = {g: {} for g in self.p.functions}
        self.gmods = {g: set() for g in self.p.functions}
        for f in self.p.functions.values():
            for i in f.instrs():
                if i.op == 'store':
                    self._write(f, i.a[1][1])
                elif i.op == 'call' and i.x[0] == 'g' and i.x[1] not in self.p.functions:
                    for k in EXT_WRITES.get(extname(i.x[1]), ()):
                        if k < len(i.a):
                            self._write(f, i.a[k][1], region=True)
        changed = True
        while changed:
            changed = False
            for f in self.p.functions.values():
                m, w, gm = self.mods[f.gid], self.pw[f.gid], self.gmods[f.gid]
                n0 = (len(m), sum(len(x) for x in w.values()), len(gm))
                for i in f.calls():
                    ts = [i.x[1]] if i.x[0] == 'g' else self.ind.get(i, ())
                    for t in ts:
                        if t not in self.p.functions:
                            continue
                        m |= self.mods[t]
                        gm |= self.gmods[t]
                        for k, offs in self.pw[t].items():
                            if k < len(i.a):
                                for r in self.roots(f, i.a[k][1]):
                                    if r[0] == 'param' and r[1] is not None:
                                        s = w.setdefault(r[1], set())
                                        for o in offs:
                                            s.add(None if (o is None or r[2] is None) else o + r[2])
                                    elif r[0] == 'global':
                                        gm.add(r[1])
                if (len(m), sum(len(x) for x in w.values()), len(gm)) != n0:
                    changed = True

    def _write(self, f, v, region=False):
        tag = self.tag(f, v)
        for r in self.roots(f, v):
            if r[0] in ('alloca', 'fresh'):
                continue
            if r[0] == 'global':
                self.gmods[f.gid].add(r[1])
                continue
            if r[0] == 'param' and r[1] is not None:
                self.pw[f.gid].setdefault(r[1], set()).add(None if region else r[2])
                if tag[0] != 'raw':
                    self.mods[f.gid].add(tag)
                continue
            self.mods[f.gid].add(tag)


# ---- per-function control flow information
class CFG:
    def __init__(self, fn):
        self.fn = fn
        self.rpo = []
        seen = set()
        stack = [(fn.order[0], iter(fn.blocks[fn.order[0]].succs))]
        seen.add(fn.order[0])
        post = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(fn.blocks[s].succs)))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.num = {b: k for k, b in enumerate(self.rpo)}
        self._dom()
        self._loops()
        self._live()

    def _dom(self):
        idom = {self.rpo[0]: self.rpo[0]}
        num = self.num
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                n = None
                for p in self.fn.blocks[b].preds:
                    if p in idom:
                        if n is None:
                            n = p
                        else:
                            x, y = p, n
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            n = x
                if n is not None and idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    def _loops(self):
        self.loops = {}
        self.back = set()
        for b in self.rpo:
            for s in self.fn.blocks[b].succs:
                if self.num[s] <= self.num[b]:
                    self.back.add((b, s))
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work += [p for p in self.fn.blocks[x].preds if p in self.num]
        self.inloops = {b: tuple(h for h in self.rpo if h in self.loops and b in self.loops[h]) for b in self.rpo}

    def _live(self):
        fn = self.fn
        use, dfn, phiuse = {}, {}, {}
        for b in self.rpo:
            u, d = set(), set()
            for i in fn.blocks[b].ins:
                if i.op == 'phi':
                    d.add(i.res)
                    for v, pb in i.x:
                        if v[0] == 'l':
                            phiuse.setdefault(pb, set()).add(v[1])
                    continue
                for v in operands(i):
                    if v[0] == 'l' and v[1] not in d:
                        u.add(v[1])
                if i.res is not None:
                    d.add(i.res)
            use[b], dfn[b] = u, d
        live_in = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set(phiuse.get(b, ()))
                for s in fn.blocks[b].succs:
                    out |= live_in[s]
                n = use[b] | (out - dfn[b])
                if n != live_in[b]:
                    live_in[b] = n
                    ch = True
        # phi operands are needed on entry to the block with the phi
        self.live_in = live_in
        self.phiuse = phiuse


def operands(i):
    for t, v in i.a:
        yield from vals(v)
    if i.op == 'call':
        yield from vals(i.x)
    if i.op == 'phi':
        for v, b in i.x:
            yield from vals(v)


def vals(v):
    if v[0] == 'agg':
        for t, x in v[1]:
            yield from vals(x)
    elif v[0] == 'cegep':
        for t, x in v[2]:
            yield from vals(x)
    else:
        yield v


if __name__ == '__main__':
    import time
    p = load()
    t = time.time()
    e = Effects(p)
    print(time.time() - t)
    for n in ('Runtime_CollectGarbage', 'Object_Insert', 'Runtime_Push', 'Object_FromInt', 'BPAlloc_Malloc', 'Runtime_Pop', '_Error_Report'):
        f = p.fn(n)
        print(n, e.mods[f.gid], e.pw[f.gid], e.gmods[f.gid])
    gc = p.fn('Runtime_CollectGarbage').gid
    print(len(e.reachers([gc])))
    print(sorted(e.slots, key=str))
    for i, t in sorted(e.ind.items(), key=lambda x: p.where(x[0])):
        print(p.where(i), i.fn.name, len(t), sorted(x.split(':')[-1] for x in t)[:6])

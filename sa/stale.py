"""G02: references are not used after something that may have moved what they refer to."""
from effects import CFG, operands, vals
from noja import *
from core import Result, Finding, Broken
from ir import PTR

NOT = ('Runtime*', 'Executable*', 'FILE*', 'DIR*', 'Source*', 'TypeObject*', 'fn()*', 'Heap*', 'Error*', 'StaticMapSlot*', 'TimingTable*')
BOXES = ('ParsedArgument*',)


class Refs:
    """which values refer to something in the heap"""
    def __init__(self, w, collectors):
        self.w, self.p, self.eff = w, w.p, w.eff
        self.coll = w.eff.reachers(collectors) - set(collectors)
        self.memo = {}
        self.inner = {}
        self.par = set()         # (function, parameter): a pointer into the heap is given for it
        self.sum = {}

    def heapy(self, t, mod=None):
        if not t.endswith('*') or t in NOT or t.endswith('**'):
            return False
        n = t[:-1]
        if n == 'Object':
            return True
        k = (n, id(mod))
        if k not in self.memo:
            d = None
            try:
                d = self.p.di_struct(n, mod) if mod else self.p.di_struct(n)
            except Exception:
                pass
            self.memo[k] = bool(d) and d[0][2] == 'Object'
        return self.memo[k]

    def ctypes(self, f):
        if f.gid not in self.sum:
            self.sum[f.gid] = self.p.param_ctypes(f) or []
        return self.sum[f.gid]

    def base(self, f, v):
        """the value an address is computed from"""
        seen = 0
        while v[0] == 'l' and seen < 50:
            d = self.eff.defs(f).get(v[1])
            if d is not None and d.op in ('gep', 'bitcast'):
                v = d.a[0][1]
                seen += 1
            else:
                break
        return v[1] if v[0] == 'l' else None

    def targets(self, i):
        return [i.x[1]] if i.x[0] == 'g' else sorted(self.eff.ind.get(i, ()))

    def fieldtype(self, f, v):
        k = self.eff.field_of(f, v)
        if k is None:
            return None
        try:
            t = self.p.structs[k[0]]
            off = self.p.offset(('struct', k[0]), k[1])
            d = self.p.di_struct(k[0].split('.', 1)[1].split('@')[0], f.mod)
            for n, o, ct, sz in d or ():
                if o == off:
                    return ct
        except Exception:
            pass
        return None

    def analyse(self, f):
        """(references, arrays of references) among the values of a function"""
        refs, arrs = set(), set()
        ct = self.ctypes(f)
        for k, (ty, n) in enumerate(f.params):
            t = ct[k + 1] if k + 1 < len(ct) else ''
            if self.heapy(t, f.mod) or (f.gid, k) in self.par:
                refs.add(n)
            if t.replace('[]', '*') == 'Object**':
                arrs.add(n)
        ins = list(f.instrs())
        ch = True
        while ch:
            ch = False

            def add_(s, x):
                nonlocal ch
                if x is not None and x not in s:
                    s.add(x)
                    ch = True
            for i in ins:
                if i.op == 'call':
                    for t in self.targets(i):
                        g = self.p.functions.get(t)
                        if g is None:
                            continue
                        gt = self.ctypes(g)
                        for k, (aty, av) in enumerate(i.a):
                            x = gt[k + 1].replace('[]', '*') if k + 1 < len(gt) else ''
                            if x == 'Object**' or x in BOXES:
                                add_(arrs, self.base(f, av))
                        if i.res is not None and i.ty == PTR and gt:
                            if self.heapy(gt[0], g.mod):
                                add_(refs, i.res)
                            elif gt[0] not in NOT and any(av[0] == 'l' and av[1] in refs and k in self.interior(g) for k, (aty, av) in enumerate(i.a)):
                                add_(refs, i.res)
                elif i.op == 'load' and i.ty == PTR:
                    b = self.base(f, i.a[0][1])
                    if b in arrs:
                        add_(refs, i.res)
                    else:
                        t = self.fieldtype(f, i.a[0][1])
                        if t is not None and self.heapy(t, f.mod) or b in refs and t not in NOT and t != 'TypeObject*':
                            add_(refs, i.res)
                        if t is not None and t.replace('[]', '*') == 'Object**' and b in refs:
                            add_(arrs, i.res)
                elif i.op in ('gep', 'bitcast', 'phi', 'select'):
                    vs = [v for v, bb in i.x] if i.op == 'phi' else [i.a[0][1]] if i.op != 'select' else [i.a[1][1], i.a[2][1]]
                    if i.op in ('phi', 'select') and i.ty != PTR:
                        continue
                    for v in vs:
                        if v[0] == 'l' and v[1] in refs:
                            add_(refs, i.res)
                        if v[0] == 'l' and v[1] in arrs and i.op in ('phi', 'select'):
                            add_(arrs, i.res)
        return refs, arrs

    def interior(self, g, depth=0):
        """the parameters into the objects of which a function returns pointers"""
        if g.gid in self.inner:
            return self.inner[g.gid]
        self.inner[g.gid] = set()
        out = set()
        ct = self.ctypes(g)
        for k, (ty, n) in enumerate(g.params):
            if not (k + 1 < len(ct) and self.heapy(ct[k + 1], g.mod)):
                continue
            t = {n}
            ch = True
            while ch:
                ch = False
                for i in g.instrs():
                    if i.res is None or i.res in t:
                        continue
                    vs = ()
                    if i.op in ('gep', 'bitcast'):
                        vs = [i.a[0][1]]
                    elif i.op == 'load' and i.ty == PTR and self.fieldtype(g, i.a[0][1]) not in NOT:
                        vs = [i.a[0][1]]
                    elif i.op == 'phi' and i.ty == PTR:
                        vs = [v for v, b in i.x]
                    elif i.op == 'select' and i.ty == PTR:
                        vs = [i.a[1][1], i.a[2][1]]
                    elif i.op == 'call' and i.ty == PTR:
                        for c in self.targets(i):
                            h = self.p.functions.get(c)
                            if h is not None and depth < 6:
                                vs = [i.a[j][1] for j in self.interior(h, depth + 1) if j < len(i.a)]
                    if any(v[0] == 'l' and v[1] in t for v in vs):
                        t.add(i.res)
                        ch = True
            for i in g.instrs():
                if i.op == 'ret' and i.a and i.a[0][1][0] == 'l' and i.a[0][1][1] in t:
                    out.add(k)
        self.inner[g.gid] = out
        return out

    def collecting(self, i):
        return i.op == 'call' and any(t in self.coll for t in self.targets(i))

    def writes(self, i, k):
        """may the function called write through its k-th argument?"""
        for t in self.targets(i):
            if self.out(t, k, set()):
                return True
        return False

    def out(self, t, k, seen):
        if (t, k) in seen:
            return False
        seen.add((t, k))
        g = self.p.functions.get(t)
        if g is None:
            return k == 0 and t.lstrip('@').startswith(('memcpy', 'memmove', 'memset', 'llvm.mem', 'fread', 'snprintf'))
        if k >= len(g.params):
            return False
        n = g.params[k][1]
        for i in g.instrs():
            if i.op == 'store' and self.base(g, i.a[1][1]) == n:
                return True
            if i.op == 'call':
                for j, (ty, v) in enumerate(i.a):
                    if v[0] == 'l' and self.base(g, v) == n:
                        if any(self.out(c, j, seen) for c in self.targets(i)):
                            return True
            if i.op == 'phi' and any(v[0] == 'l' and v[1] == n for v, b in i.x):
                # follow what the parameter is merged with
                for j in g.instrs():
                    if j.op == 'store' and self.base(g, j.a[1][1]) == i.res:
                        return True
                    if j.op == 'call':
                        for q, (ty, v) in enumerate(j.a):
                            if v[0] == 'l' and self.base(g, v) == i.res and any(self.out(c, q, seen) for c in self.targets(j)):
                                return True
        return False


def harmless(i):
    n = i.x[1] if i.op == 'call' and i.x[0] == 'g' else ''
    return n.startswith(('llvm.', '@llvm.')) or n in ('free',)


def check(R, f, res):
    """stale references that are used, in one function"""
    refs, arrs = R.analyse(f)
    cfg = CFG(f)
    eff = R.eff
    ins = {b: f.blocks[b].ins for b in cfg.rpo}
    site = {}

    def step(b, i, st, report):
        """st: (stale values, stale arrays) -> after the instruction"""
        sv, sa = st
        used = None
        if i.op == 'load':
            if i.a[0][1][0] == 'l' and i.a[0][1][1] in sv:
                used = ('read through', i.a[0][1][1])
        elif i.op == 'store':
            if i.a[1][1][0] == 'l' and i.a[1][1][1] in sv:
                used = ('written through', i.a[1][1][1])
            elif i.a[0][1][0] == 'l' and i.a[0][1][1] in sv:
                used = ('kept', i.a[0][1][1])
        elif i.op == 'call' and not harmless(i):
            for ty, v in i.a:
                if v[0] == 'l' and v[1] in sv:
                    used = ('handed on', v[1])
        elif i.op == 'ret':
            for ty, v in i.a:
                if v[0] == 'l' and v[1] in sv:
                    used = ('returned', v[1])
        if report is not None and used:
            report(i, used)
        # effects
        if i.op == 'call' and R.collecting(i):
            res_new = {}
            old = {x for x in refs if x in defined(b, i)}
            sv = sv | old
            keep = {R.base(f, v) for k, (ty, v) in enumerate(i.a) if v[0] == 'l' and R.base(f, v) in arrs and R.writes(i, k)}
            sa = (sa | {x for x in arrs if x in defined(b, i)}) - keep
            for x in old:
                site.setdefault(x, i)
        elif i.op == 'call' and not harmless(i):
            keep = {R.base(f, v) for k, (ty, v) in enumerate(i.a) if v[0] == 'l' and R.base(f, v) in sa and R.writes(i, k)}
            sa = sa - keep
        elif i.op == 'store':
            x = R.base(f, i.a[1][1])
            if x in sa:
                sa = sa - {x}
        if i.res is not None:
            stale = False
            if i.op in ('gep', 'bitcast'):
                stale = i.a[0][1][0] == 'l' and i.a[0][1][1] in sv
            elif i.op == 'select':
                stale = any(v[0] == 'l' and v[1] in sv for v in (i.a[1][1], i.a[2][1]))
            elif i.op == 'load' and i.ty == PTR and i.res in refs:
                stale = R.base(f, i.a[0][1]) in sa
            sv = sv | {i.res} if stale else sv - {i.res}
        return sv, sa

    order = {}
    for b in cfg.rpo:
        for k, i in enumerate(ins[b]):
            order[i] = (b, k)
    where = {i.res: i for b in cfg.rpo for i in ins[b] if i.res is not None}
    params = {n for ty, n in f.params}

    def defined(b, i):
        """the values that may have been computed before an instruction"""
        out = set(params)
        for n, d in where.items():
            db, dk = order[d]
            if db == b and dk < order[i][1] or db != b and cfg.dominates(db, b):
                out.add(n)
        return out

    start = {b: None for b in cfg.rpo}
    start[cfg.rpo[0]] = (frozenset(), frozenset())
    work = [cfg.rpo[0]]
    ends = {}
    n = 0
    while work and n < 5000:
        n += 1
        b = work.pop(0)
        st = (set(start[b][0]), set(start[b][1]))
        for i in ins[b]:
            if i.op == 'phi':
                continue
            st = step(b, i, st, None)
        for s in f.blocks[b].succs:
            sv, sa = set(st[0]), set(st[1])
            new = {}
            for i in ins[s]:
                if i.op != 'phi':
                    break
                for v, pb in i.x:
                    if pb == b:
                        new[i.res] = (v[0] == 'l' and v[1] in sv, v[0] == 'l' and v[1] in sa)
            for k, (x, y) in new.items():
                (sv.add if x else sv.discard)(k)
                (sa.add if y else sa.discard)(k)
            o = start[s]
            m = (frozenset(sv), frozenset(sa)) if o is None else (o[0] | sv, o[1] | sa)
            if m != o:
                start[s] = m
                if s not in work:
                    work.append(s)
    found = {}

    def report(i, used):
        found.setdefault(i, used)
    for b in cfg.rpo:
        if start[b] is None:
            continue
        st = (set(start[b][0]), set(start[b][1]))
        for i in ins[b]:
            if i.op != 'phi':
                st = step(b, i, st, report)
    calls = [i for b in cfg.rpo for i in ins[b] if R.collecting(i)]
    res.count('calls that may collect', len(calls))
    res.count('references', len(refs))
    res.count('arrays of references', len(arrs))
    for i in calls:
        res.sample('%s: %s' % (f.name, R.p.where(i)))
    for i, (how, v) in found.items():
        c = site.get(v)
        res.findings.append(Finding('%s:%s' % (f.name, how), R.p.where(i), 'references',
                            '%s: a reference is %s after something that may have moved what it refers to' % (f.name, how),
                            ['may collect: %s' % R.p.where(x) for x in calls]))
    return refs


def stale_(tier):
    w = World()
    res = Result()
    p = w.p
    c = p.fn('Heap_StartCollection')
    g = p.fn('Runtime_CollectGarbage')
    if c is None or g is None:
        raise Broken('the collector is gone')
    R = Refs(w, [c.gid])
    own = {g.gid}
    R.coll |= own
    fs = [p.functions[x] for x in sorted(R.coll - own) if x in p.functions]
    ch = True
    turn = 0
    while ch and turn < 20:
        ch = False
        turn += 1
        for f in fs:
            refs, arrs = R.analyse(f)
            for i in f.calls():
                for t in R.targets(i):
                    if t not in R.coll or t not in p.functions:
                        continue
                    for k, (ty, v) in enumerate(i.a):
                        if v[0] == 'l' and v[1] in refs and k < len(p.functions[t].params) and (t, k) not in R.par:
                            R.par.add((t, k))
                            ch = True
    for f in fs:
        res.count('functions')
        check(R, f, res)
    res.need('functions', 10)
    res.need('calls that may collect', 12)
    res.need('references', 12)
    return res

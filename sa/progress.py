"""H01: a loop gets nearer to its end.

For every natural loop of every function: what decides whether it goes on must
be able to change from one turn to the next, and a counter must move toward the
bound it is compared with.
"""
from noja import World
from core import Result
from effects import CFG
from owning import keeping

INERT = ('llvm.dbg', 'llvm.lifetime')
PURE = {'strlen', 'strcmp', 'strncmp', 'memcmp', 'isdigit', 'isalpha', 'isspace', 'isalnum', 'isprint', '__ctype_b_loc'}
PRINTS = {'printf', 'fprintf', 'fputs', 'fputc', 'putc', 'fwrite', 'putchar', 'puts', 'fflush'}
CASTS = ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc')
PLAIN = CASTS + ('icmp', 'fcmp', 'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'select', 'gep', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'extractvalue')
NEG = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}
SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}


def cases(t):
    for c in t.x[1]:
        k, b = c[0], c[1]
        while isinstance(k, tuple):
            k = k[-1]
        yield k, b


class Loop:
    def __init__(self, f, g, head, latches):
        self.f, self.g, self.head, self.latches = f, g, head, latches
        preds = {}
        for b in f.order:
            for s in f.blocks[b].succs:
                preds.setdefault(s, []).append(b)
        body, todo = {head}, list(latches)
        while todo:
            b = todo.pop()
            if b not in body:
                body.add(b)
                todo += preds.get(b, ())
        self.body, self.preds = body, preds
        self.defs = {i.res: i for b in body for i in f.blocks[b].ins if i.res}
        self.memo = {}
        self.writes = []       # places stored to; None: anything
        self.calls = []
        for b in body:
            for i in f.blocks[b].ins:
                if i.op == 'store':
                    self.writes.append(i.a[1][1])
                elif i.op == 'call':
                    n = i.x[1].split(':')[-1] if i.x[0] == 'g' else None
                    if n is None or not (n in PURE or n.startswith(INERT) or i.x[1] in CONST):
                        self.writes.append(('call', i))
                elif i.op not in PLAIN + ('load', 'phi', 'br', 'switch', 'alloca', 'ret', 'unreachable'):
                    self.writes.append(None)

    def exits(self):
        """(block, condition, the values of it that stay)"""
        out = []
        for b in sorted(self.body, key=self.f.order.index):
            ss = self.f.blocks[b].succs
            if any(s not in self.body for s in ss):
                t = self.f.blocks[b].ins[-1]
                out.append((b, t))
        return out

    def place(self, v):
        """the member a pointer points to, if a member access says it"""
        if v and v[0] == 'l':
            d = self.alldefs().get(v[1])
            if d is not None and d.op == 'gep' and d.x[0] == 'struct' and len(d.a) == 3 and d.a[2][1][0] == 'c':
                return d.x[1], d.a[2][1][1]
            if d is not None and d.op == 'alloca':
                return 'local', v[1]
        return None

    def alldefs(self):
        if not hasattr(self.f, '_alldefs'):
            self.f._alldefs = {i.res: i for i in self.f.instrs() if i.res}
        return self.f._alldefs

    def stays(self, v, seen=()):
        """the value is the same in every turn from the second on"""
        if v is None or v[0] != 'l':
            return True
        d = self.defs.get(v[1])
        if d is None:
            return True
        if v in self.memo:
            return self.memo[v]
        if v in seen:
            return False
        r = self._stays(v, d, seen + (v,))
        if not seen:
            self.memo[v] = r
        return r

    def _stays(self, v, d, seen):
        if d.op == 'phi' and d.blk == self.head:
            back = [x for x, b in d.x if b in self.body]
            return bool(back) and all(x == v or x[0] == 'c' for x in back)
        if d.op == 'phi':
            if not all(self.stays(x, seen) for x, b in d.x):
                return False
            top = self.g.idom.get(d.blk)
            for x, b in d.x:
                n = 0
                while True:
                    t = self.f.blocks[b].ins[-1]
                    if t.a and t.op in ('br', 'switch') and not self.stays(t.a[0][1], seen):
                        return False
                    if b == top or b == self.head or n > 200 or b not in self.g.idom:
                        break
                    b = self.g.idom[b]
                    n += 1
            return True
        if d.op == 'load':
            if d.x is not None and 'volatile' in str(d.x):
                return False
            if not self.stays(d.a[0][1], seen):
                return False
            here = self.place(d.a[0][1])
            for wv in self.writes:
                if wv is not None and wv[0] == 'call':
                    if here is not None and here[0] == 'local' and own(self.f, here[1]) and not any(a[1] == ('l', here[1]) for a in wv[1].a):
                        continue
                    return False
                there = self.place(wv) if wv is not None else None
                if here is None or there is None or here == there or (here[0] == 'local') != (there[0] == 'local'):
                    return False
            return True
        if d.op in PLAIN or d.op == 'call' and d.x[0] == 'g' and d.x[1] in CONST:
            return all(self.stays(a[1], seen) for a in d.a)
        return False

    def turns(self, limit=3000):
        """the ways round the loop, as lists of blocks; inner loops are not gone round"""
        out, todo = [], [(self.head,)]
        while todo and len(out) < limit:
            p = todo.pop()
            for s in dict.fromkeys(self.f.blocks[p[-1]].succs):
                if s == self.head:
                    out.append(p)
                elif s in self.body and s not in p:
                    todo.append(p + (s,))
            if len(todo) > limit:
                return None
        return out if not todo else None

    def idle(self, path, inner):
        """taken once, the turn leaves everything that chose it as it was"""
        if any(b in inner for b in path[1:]):
            return False
        prev = dict(zip(path[1:], path))
        on = set(path)
        calls = [i for b in path for i in self.f.blocks[b].ins if i.op == 'call']
        stores = [i for b in path for i in self.f.blocks[b].ins if i.op == 'store']
        memo = {}

        def along(v, n=0):
            """what a value is at the end of the path, through its merges"""
            while v[0] == 'l' and n < 50:
                d = self.defs.get(v[1])
                if d is None or d.op != 'phi' or d.blk == self.head or d.blk not in on:
                    return v
                v = next((x for x, b in d.x if b == prev.get(d.blk)), v)
                n += 1
            return v

        def line(v):
            """a value as another and a constant"""
            k, v, n = 0, along(v), 0
            while v[0] == 'l' and v[1] in self.defs and n < 20:
                d = self.defs[v[1]]
                if d.op not in ('add', 'sub') or d.blk not in on or d.a[1][1][0] != 'c' or not isinstance(d.a[1][1][1], int):
                    break
                c, bits = d.a[1][1][1], d.ty[1]
                k = (k + (c if d.op == 'add' else -c)) % (1 << bits)
                v, n = along(d.a[0][1]), n + 1
            return v, k

        def same(v):
            v = along(v)
            if v[0] != 'l' or v[1] not in self.defs:
                return True
            if v[1] in memo:
                return memo[v[1]]
            memo[v[1]] = False
            d = self.defs[v[1]]
            if d.op == 'phi' and d.blk == self.head:
                r = all(line(x) == (v, 0) for x, b in d.x if b == path[-1])
            elif d.op == 'load' and d.blk in on and 'volatile' not in str(d.x):
                r = same(d.a[0][1])
                here = self.place(d.a[0][1])
                for i in calls:
                    n = i.x[1].split(':')[-1] if i.x[0] == 'g' else ''
                    if n in PURE or n in PRINTS or n.startswith(INERT) or i.x[0] == 'g' and i.x[1] in CONST:
                        continue
                    if here is not None and here[0] == 'local' and own(self.f, here[1]) and not any(a[1] == ('l', here[1]) for a in i.a):
                        continue
                    r = False
                for i in stores:
                    there = self.place(i.a[1][1])
                    if here is None or there is None or here == there or (here[0] == 'local') != (there[0] == 'local'):
                        r = False
            elif d.blk in on and (d.op in PLAIN or d.op == 'call' and d.x[0] == 'g' and d.x[1] in CONST):
                r = all(same(a[1]) for a in d.a)
            elif d.op == 'call' and d.x[0] == 'g' and d.x[1] in PURE and not stores and d.blk in on:
                r = all(same(a[1]) for a in d.a) and all(i.x[0] == 'g' and i.x[1].split(':')[-1] in PURE | PRINTS for i in calls)
            else:
                r = False
            memo[v[1]] = r
            return r
        def shape(v, n=0):
            """what a value is made of, to tell conditions apart"""
            v = along(v)
            d = self.defs.get(v[1]) if v[0] == 'l' else None
            if d is None or d.op not in PLAIN + ('load',) or n > 8 or d.blk not in on:
                return v
            x = d.x if isinstance(d.x, (str, tuple)) else None
            return (d.op, x) + tuple(shape(a[1], n + 1) for a in d.a)

        def fact(k, yes):
            """(what, the values of it that are possible: below, equal, above), or (condition, truth)"""
            while True:
                if k[0] in CASTS and k[0] != 'trunc' or k[0] == 'trunc' and len(k) == 3 and isinstance(k[2], tuple) and k[2][0] in ('zext', 'icmp'):
                    k = k[2]
                elif k[0] == 'icmp' and k[1] in ('eq', 'ne') and k[3] == ('c', 0) and isinstance(k[2], tuple) and k[2][0] in ('icmp', 'zext'):
                    yes = yes if k[1] == 'ne' else not yes
                    k = k[2]
                elif k[0] == 'xor' and k[3] == ('c', 1) or k[0] == 'xor' and k[3] == ('c', -1) or k[0] == 'xor' and k[3] == ('c', True):
                    yes = not yes
                    k = k[2]
                else:
                    break
            if k[0] == 'icmp':
                p = k[1] if yes else NEG.get(k[1], k[1])
                a, b = k[2], k[3]
                if repr(b) < repr(a):
                    a, b, p = b, a, SWAP.get(p, p)
                return ('cmp', a, b), {'eq': {0}, 'ne': {-1, 1}, 'lt': {-1}, 'le': {-1, 0}, 'gt': {1}, 'ge': {0, 1}}.get(p[-2:], {-1, 0, 1})
            return ('is', k), {bool(yes)}
        known, is_ = {}, {}
        for b, nxt in zip(path, path[1:] + (self.head,)):
            t = self.f.blocks[b].ins[-1]
            if not t.a or t.op not in ('br', 'switch'):
                continue
            if not same(t.a[0][1]):
                return False
            if t.op == 'br' and t.x[0] != t.x[1]:
                c = along(t.a[0][1])
                if c[0] == 'c' and (t.x[0] if c[1] else t.x[1]) != nxt:
                    return False
                what, may = fact(shape(c), t.x[0] == nxt)
                known[what] = known.get(what, may) & may
                if not known[what]:
                    return False
                if what[0] == 'cmp' and known[what] == {0}:
                    for x, y in ((what[1], what[2]), (what[2], what[1])):
                        if y[0] == 'c':
                            is_.setdefault(x, set()).add(y[1])
            elif t.op == 'switch':
                v = shape(t.a[0][1])
                hits = {k for k, bl in cases(t) if bl == nxt}
                if t.x[0] == nxt:
                    continue
                if v in is_ and not (is_[v] & hits):
                    return False
                if len(hits) == 1:
                    is_.setdefault(v, set()).update(hits)
        return all(len(v) == 1 for v in is_.values())

    def value(self, v, depth=0):
        """the constant it is from the second turn on, None if not known"""
        if v[0] == 'c':
            return v[1]
        d = self.defs.get(v[1]) if v[0] == 'l' else None
        if d is None or depth > 12:
            return None
        if d.op == 'phi' and d.blk == self.head:
            back = {x for x, b in d.x if b in self.body}
            back.discard(v)
            if len(back) == 1:
                x = next(iter(back))
                return x[1] if x[0] == 'c' else None
            return None
        if d.op in ('sext', 'zext', 'trunc', 'freeze'):
            return self.value(d.a[0][1], depth + 1)
        if d.op in ('add', 'sub', 'icmp', 'xor', 'and', 'or'):
            a, b = (self.value(x[1], depth + 1) for x in d.a)
            if not isinstance(a, int) or not isinstance(b, int):
                return None
            if d.op == 'icmp':
                k = d.x if isinstance(d.x, str) else None
                return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}.get(k)
            return {'add': a + b, 'sub': a - b, 'xor': a ^ b, 'and': a & b, 'or': a | b}[d.op]
        return None

    def away(self, b, t):
        """a counter that moves away from the bound that would end the loop here"""
        if t.op != 'br' or not t.a or len(self.f.blocks[b].succs) != 2:
            return None
        c = t.a[0][1]
        d = self.defs.get(c[1]) if c[0] == 'l' else None
        if d is None or d.op != 'icmp' or not isinstance(d.x, str) or d.x[0] != 's':
            return None
        pred = d.x
        if t.x[0] not in self.body:
            pred = NEG[pred]
        for l, r, p in ((d.a[0][1], d.a[1][1], pred), (d.a[1][1], d.a[0][1], SWAP[pred])):
            if not self.stays(r):
                continue
            s = self.step(l)
            if s is not None and (p in ('slt', 'sle') and s < 0 or p in ('sgt', 'sge') and s > 0):
                return l
        return None

    def step(self, v):
        """what is added to it in every turn, if that is a constant"""
        d = self.defs.get(v[1]) if v[0] == 'l' else None
        n = 0
        while d is not None and d.op in ('sext', 'freeze') and n < 4:
            v = d.a[0][1]
            d = self.defs.get(v[1]) if v[0] == 'l' else None
            n += 1
        if d is None or d.op != 'phi' or d.blk != self.head:
            return None
        out = set()
        for x, b in d.x:
            if b not in self.body:
                continue
            e = self.defs.get(x[1]) if x[0] == 'l' else None
            if e is None or e.op not in ('add', 'sub') or e.a[0][1] != v or e.a[1][1][0] != 'c' or not isinstance(e.a[1][1][1], int):
                return None
            k = e.a[1][1][1]
            if k >= 1 << 31:
                k -= 1 << (e.ty[1] if e.ty and e.ty[0] == 'int' else 64)
            out.add(k if e.op == 'add' else -k)
        return out.pop() if len(out) == 1 else None


KEEPS = {}
CONST = set()


def const(w):
    """the functions whose result depends on nothing but their arguments"""
    out = set()
    while True:
        new = {f.gid for f in w.p.functions.values() if f.blocks and f.gid not in out and all(
            i.op in PLAIN + ('phi', 'br', 'switch', 'ret', 'unreachable') or i.op == 'call' and i.x[0] == 'g' and (i.x[1] in out or i.x[1].startswith(INERT)) for i in f.instrs())}
        if not new:
            return out
        out |= new


def own(f, name):
    """a local whose address only calls that do not keep it are given"""
    memo = f.__dict__.setdefault('_own', {})
    if name not in memo:
        ok = True
        for i in f.instrs():
            vs = [a[1] for a in i.a] + ([x for x, _ in i.x] if i.op == 'phi' else [])
            for k, v in enumerate(vs):
                if v != ('l', name):
                    continue
                if i.op == 'load' or i.op == 'store' and k == 1:
                    continue
                if i.op == 'call' and i.x[0] == 'g' and (i.x[1] in KEEPS and k not in KEEPS[i.x[1]] or i.x[1].startswith('llvm.')):
                    continue
                ok = False
        memo[name] = ok
    return memo[name]


def loops(f):
    g = CFG(f)
    heads = {}
    for b in f.order:
        if b not in g.idom:
            continue
        for s in f.blocks[b].succs:
            if g.dominates(s, b):
                heads.setdefault(s, []).append(b)
    return [Loop(f, g, h, ls) for h, ls in heads.items()]


def progress_(tier):
    w = World()
    res = Result()
    KEEPS.clear()
    KEEPS.update(keeping(w))
    CONST.clear()
    CONST.update(const(w))
    res.count('functions of their arguments only', len(CONST))
    for f in sorted((f for f in w.p.functions.values() if f.blocks and f.file), key=lambda f: (f.file, f.line or 0)):
        res.count('functions')
        ls = loops(f)
        for l in ls:
            res.count('loops')
            ts = l.turns()
            if ts is None:
                res.note('%s: too many ways round a loop: only its conditions are looked at' % f.name)
            inner = {x.head for x in ls if x is not l and x.head in l.body}
            for path in ts or ():
                res.count('turns')
                if len(l.exits()) and l.idle(path, inner):
                    t = l.f.blocks[path[-1]].ins[-1]
                    i = next((x for x in l.f.blocks[l.head].ins if x.dbg is not None), t)
                    res.add('%s/idle' % f.name, w.p.where(t) if t.dbg else w.p.where(i), 'progress', 'a turn of this loop changes nothing that decides where it goes: taken once, it is taken for ever (%s)' % f.name,
                            ['%s: the loop starts here' % w.p.where(i)])
                    break
            ex = l.exits()
            res.count('ways out', len(ex))
            if not ex:
                res.note('%s: a loop that nothing inside ends is left to what it calls' % f.name)
                continue
            verdict, why = None, None
            for b, t in ex:
                if not t.a or t.op not in ('br', 'switch'):
                    verdict = 'ok'
                    break
                c = t.a[0][1]
                if l.stays(c):
                    v = l.value(c)
                    if t.op == 'br' and v is not None:
                        if t.x[0 if v else 1] not in l.body:
                            verdict = 'ok'
                            break
                    why = why or (b, t, 'nothing that decides whether this loop goes on changes from turn to turn')
                    continue
                if l.away(b, t) is not None:
                    why = (b, t, 'the counter of this loop moves away from where it ends')
                    continue
                verdict = 'ok'
                break
            res.count('obligations')
            if verdict is None and why is not None:
                b, t, text = why
                i = next((x for x in l.f.blocks[l.head].ins if x.dbg is not None), t)
                res.add('%s/%s' % (f.name, 'stays' if 'nothing' in text else 'away'), w.p.where(t) if t.dbg else w.p.where(i), 'progress', '%s (%s)' % (text, f.name),
                        ['%s: the loop starts here' % w.p.where(i)])
    res.need('loops', 90)
    return res

"""Path-sensitive abstract interpretation of the IR.

A disjunctive dataflow analysis in the style of ESP: every program point holds
a set of abstract states (linear terms over symbols, intervals, disequalities,
difference facts, a symbolic store), joined when there are too many.  Loops are
cut: a loop body is analysed once for the entry state and again, until nothing
new appears, for a state in which everything the body changed is unknown.
Branches are decided by interval arithmetic on linear forms only.  Property
automata ride along in State.prop and in the hooks.
"""
import heapq, sys
from ir import *
from effects import Effects, CFG, EXT_WRITES, extname

sys.setrecursionlimit(20000)
INF = 10 ** 30
BOOL = {'eq', 'ne', 'le', 'ult', 'ule', 'fcmp', 'not', 'and', 'or', 'tr1'}


# ---------------------------------------------------------------- terms
def C(n):
    return ('c', n)


ZERO, ONE = C(0), C(1)


def parts(t):
    k = t[0]
    if k == 'c':
        return t[1], ()
    if k == 'lin':
        return t[1], t[2]
    return 0, ((t, 1),)


def mk(c, items):
    if not items:
        return ('c', c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ('lin', c, items)


_okey = {}


def okey(a):
    k = _okey.get(a)
    if k is None:
        k = len(_okey)
        _okey[a] = k
    return k


def norm(c, d):
    its = [(a, k) for a, k in d.items() if k]
    if len(its) > 1:
        its.sort(key=lambda x: okey(x[0]))
    return mk(c, tuple(its))


def add(a, b, kb=1):
    ca, ia = parts(a)
    cb, ib = parts(b)
    if not ib:
        return mk(ca + kb * cb, ia)
    d = dict(ia)
    for t, k in ib:
        d[t] = d.get(t, 0) + kb * k
    return norm(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, its = parts(a)
    if k == 0:
        return ZERO
    return mk(c * k, tuple((t, x * k) for t, x in its))


def isc(t):
    return t[0] == 'c'


def isbool(t):
    return t[0] in BOOL


def root(addr):
    """the pointer atom an address is based on"""
    c, its = parts(addr)
    best = None
    for a, k in its:
        if k == 1 and a[0] in ('g', 'loc', 'alloc'):
            return a
    for a, k in its:
        if k == 1 and is_ptr_atom(a):
            if best is not None:
                return None
            best = a
    return best


def is_ptr_atom(a):
    k = a[0]
    if k in ('g', 'loc', 'alloc'):
        return True
    if k in ('s', 'm', 'h'):
        return a[-1] == 'p'
    return False


_atoms = {}


def atoms(t):
    """all atoms occurring in a term, also inside"""
    r = _atoms.get(t)
    if r is not None:
        return r
    out = set()
    k = t[0]
    if k in ('c', 'f', 'str'):
        pass
    elif k == 'lin':
        for a, _ in t[2]:
            out |= atoms(a)
    elif k in ('s', 'g', 'loc', 'alloc', 'h'):
        out.add(t)
    elif k == 'm':
        out.add(t)
        out |= atoms(t[1])
    else:
        out.add(t)
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                out |= atoms(x)
    r = frozenset(out)
    _atoms[t] = r
    return r


def neg(b):
    k = b[0]
    if k == 'c':
        return C(0 if b[1] else 1)
    if k == 'not':
        return b[1]
    if k == 'eq':
        return ('ne', b[1])
    if k == 'ne':
        return ('eq', b[1])
    if k == 'le':
        return ('le', sub(ONE, b[1]))
    if k == 'ult':
        return ('ule', b[2], b[1])
    if k == 'ule':
        return ('ult', b[2], b[1])
    if k == 'and':
        return ('or', neg(b[1]), neg(b[2]))
    if k == 'or':
        return ('and', neg(b[1]), neg(b[2]))
    return ('not', b)


# ---------------------------------------------------------------- states
class St:
    __slots__ = ('mem', 'iv', 'ne', 'tr', 'sub', 'ep', 'prop', 'trail', 'its', 'loops', 'esc', 'zero')

    def __init__(self):
        self.mem = {}      # address -> (value, size, tag)
        self.iv = {}       # linear key -> (lo, hi)
        self.ne = {}       # linear key -> frozenset of excluded values
        self.tr = {}       # opaque boolean -> truth
        self.sub = {}      # atom -> term
        self.ep = {}       # tag -> epoch
        self.prop = None
        self.trail = None
        self.its = {}      # (act, header) -> ordinal
        self.loops = {}    # (act, header) -> loop record
        self.esc = frozenset()
        self.zero = frozenset()   # roots whose unwritten memory reads as zero

    def clone(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.iv = dict(self.iv)
        s.ne = dict(self.ne)
        s.tr = dict(self.tr)
        s.sub = dict(self.sub)
        s.ep = dict(self.ep)
        s.prop = self.prop
        s.trail = self.trail
        s.its = dict(self.its)
        s.loops = dict(self.loops)
        s.esc = self.esc
        s.zero = self.zero
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.iv.items()), frozenset(self.ne.items()),
                frozenset(self.tr.items()), frozenset(self.sub.items()), frozenset(self.ep.items()), self.prop,
                self.esc, self.zero)


class Frame:
    __slots__ = ('fn', 'act', 'cfg', 'depth', 'parent', 'site', 'chain')

    def __init__(self, fn, act, cfg, depth, parent, site):
        self.fn, self.act, self.cfg, self.depth, self.parent, self.site = fn, act, cfg, depth, parent, site
        self.chain = (parent.chain if parent else ()) + (fn.gid,)


class LoopRec:
    __slots__ = ('entry_env', 'entry_st', 'hav', 'seen', 'n', 'consts', 'enum', 'havep', 'havmem', 'header', '_at')

    def __init__(self, header, env, st):
        self.header = header
        self.entry_env, self.entry_st = env, st
        self.hav = set()       # phi names
        self.havmem = set()    # addresses
        self.havep = set()     # tags
        self.enum = {}         # phi/cell -> set of constants seen
        self.seen = set()
        self.n = 0
        self._at = None

    def knows(self, a):
        if self._at is None:
            s = set()
            for v in self.entry_env.values():
                s |= atoms(v)
            for b, e in self.entry_st.mem.items():
                if b[0] != 'any':
                    s |= atoms(b) | atoms(e[0])
            self._at = s
        return a in self._at


class Opts:
    inline_depth = 8
    inline_size = 400
    cap = 64
    retcap = 24
    foldfp = False       # arithmetic on constants of type double
    recur = 0            # activations of one function below itself


class Hooks:
    """override what is needed"""
    immutable = frozenset()      # tags of fields that never change once set
    apart = None                 # certainly different objects

    def on_call(self, e, fr, st, ins, callee, args):
        return None

    def on_load(self, e, fr, st, ins, addr, size):
        pass

    def loaded(self, e, fr, st, ins, addr, val):
        pass

    def on_store(self, e, fr, st, ins, addr, val, size):
        pass

    def on_undef(self, e, fr, st, ins, addr):
        pass

    def on_gep(self, e, fr, st, ins, base):
        pass

    def on_bin(self, e, fr, st, ins, a, b):
        pass

    def after_call(self, e, fr, st, ins, callee, args, ret):
        pass

    def contract(self, e, fr, st, ins, callee, args):
        """None: inline or havoc; otherwise a list of (state, value)"""
        return None

    def prop_join(self, a, b):
        return a

    def tracked(self, addr):
        return False


class Budget(Exception):
    pass


UNSIGNED = {'unsigned int', 'size_t', 'unsigned long', 'uint32_t', 'uint8_t', 'uint64_t', 'uint16_t', '_Bool', 'bool',
            'unsigned char', 'unsigned short', 'unsigned long long', 'TimingID', 'socklen_t', '__size_t', 'uintptr_t'}


class Engine:
    def __init__(self, prog, eff, hooks=None, opts=None):
        self.p, self.eff = prog, eff
        self.h = hooks or Hooks()
        self.o = opts or Opts()
        self.rng = {}
        self.acts = {}
        self.cfgs = {}
        self.models = dict(MODELS)
        self.stats = {'states': 0, 'joined': 0, 'paths': 0, 'inlined': 0, 'havoc': set(), 'functions': set(), 'blocks': set()}
        self._ctf = {}
        self._inloop = {}
        self._written_globals = None
        self.steps = 0
        self.max_steps = 3000000
        vals, groups = prog.enums()
        self.enum_names = set(groups)
        self._fresh = 0

    # ------------------------------------------------ symbols
    def cfg(self, fn):
        c = self.cfgs.get(fn.gid)
        if c is None:
            c = self.cfgs[fn.gid] = CFG(fn)
        return c

    def act(self, parent, site, it):
        k = (parent, site, it)
        a = self.acts.get(k)
        if a is None:
            a = self.acts[k] = len(self.acts) + 1
        return a

    def it(self, fr, st, blk):
        ls = fr.cfg.inloops.get(blk, ())
        if not ls:
            return ()
        return tuple(st.its.get((fr.act, h), 0) for h in ls)

    def sym(self, fr, st, ins, ty, suffix=''):
        a = ('s', fr.act, ins.res or ('%s.%d' % (ins.blk, ins.idx)), self.it(fr, st, ins.blk), suffix, self.kind(ty))
        if a not in self.rng:
            self.rng[a] = self.tyrange(ty)
        return a

    def kind(self, ty):
        if ty is None:
            return 'i'
        return {'ptr': 'p', 'int': 'i', 'fp': 'f'}.get(ty[0], 'x')

    def tyrange(self, ty, ctype=None):
        if ty is None:
            return (-INF, INF)
        if ty[0] == 'ptr':
            return (0, 2 ** 63)
        if ty[0] == 'int':
            n = ty[1]
            if n == 1:
                return (0, 1)
            if ctype in ('_Bool', 'bool'):
                return (0, 1)
            if ctype in UNSIGNED or ctype in self.enum_names:
                return (0, 2 ** (n if n < 64 else 63) - 1)
            return (-2 ** (n - 1), 2 ** (n - 1) - 1)
        return (-INF, INF)

    def range0(self, a):
        k = a[0]
        if k in ('g', 'loc', 'alloc'):
            return (4096, 2 ** 63)
        if k in BOOL:
            return (0, 1)
        r = self.rng.get(a)
        return r if r else (-INF, INF)

    # ------------------------------------------------ facts
    def res(self, st, t):
        s = st.sub
        if not s:
            return t
        k = t[0]
        if k == 'c':
            return t
        if k == 'lin':
            hit = False
            for a, _ in t[2]:
                if a in s:
                    hit = True
                    break
            if not hit:
                return t
            out = C(t[1])
            for a, kk in t[2]:
                out = add(out, scale(self.res(st, a), kk))
            return out
        r = s.get(t)
        if r is not None:
            return self.res(st, r)
        if k in ('eq', 'ne', 'le'):
            x = self.res(st, t[1])
            if x is not t[1]:
                return (k, x)
        elif k in ('ult', 'ule', 'and', 'or'):
            return (k, self.res(st, t[1]), self.res(st, t[2]))
        elif k == 'not':
            return (k, self.res(st, t[1]))
        elif k == 'tup':
            return (k,) + tuple(self.res(st, x) for x in t[1:])
        return t

    def b1(self, st, a):
        lo, hi = self.range0(a)
        f = st.iv.get(((a, 1),))
        if f:
            if f[0] > lo:
                lo = f[0]
            if f[1] < hi:
                hi = f[1]
        n = st.ne.get(((a, 1),))
        if n:
            while lo in n and lo <= hi:
                lo += 1
            while hi in n and hi >= lo:
                hi -= 1
        return lo, hi

    def b0(self, st, c, its):
        lo = hi = c
        for a, k in its:
            l, h = self.b1(st, a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        if len(its) > 1:
            f, s = self.keyof(its)
            r = st.iv.get(f)
            if r:
                l, h = r
                if s < 0:
                    l, h = -h, -l
                lo = max(lo, c + l)
                hi = min(hi, c + h)
        return lo, hi

    def keyof(self, its):
        """sign-normalised key of a linear form without its constant"""
        if its[0][1] < 0:
            return tuple((a, -k) for a, k in its), -1
        return its, 1

    def bounds(self, st, t, depth=2):
        t = self.res(st, t)
        c, its = parts(t)
        if not its:
            return c, c
        return self._bounds(st, c, its, depth)

    def _bounds(self, st, c, its, depth):
        lo, hi = self.b0(st, c, its)
        if depth > 0 and len(its) >= 1:
            names = {a for a, _ in its}
            for key, (l, h) in st.iv.items():
                if len(key) < 2:
                    continue
                com = None
                for a, k in key:
                    if a in names:
                        com = (a, k)
                        break
                if com is None:
                    continue
                ca = dict(its)[com[0]]
                if ca % com[1]:
                    continue
                q = ca // com[1]
                d = dict(its)
                for a, k in key:
                    d[a] = d.get(a, 0) - q * k
                r = norm(c, d)
                rc, rits = parts(r)
                if len(rits) > len(its):
                    continue
                if not rits:
                    rl = rh = rc
                elif len(rits) < len(its) or depth > 1:
                    rl, rh = self._bounds(st, rc, rits, depth - 1) if depth > 1 else self.b0(st, rc, rits)
                else:
                    rl, rh = self.b0(st, rc, rits)
                if q > 0:
                    rl, rh = rl + q * l, rh + q * h
                else:
                    rl, rh = rl + q * h, rh + q * l
                lo = max(lo, rl)
                hi = min(hi, rh)
        if lo < -INF // 2:
            lo = -INF
        if hi > INF // 2:
            hi = INF
        return lo, hi

    def truth(self, st, b):
        """True / False / None"""
        k = b[0]
        if k == 'c':
            return b[1] != 0
        if k == 'not':
            r = self.truth(st, b[1])
            return None if r is None else not r
        if k in ('and', 'or'):
            x, y = self.truth(st, b[1]), self.truth(st, b[2])
            if k == 'and':
                if x is False or y is False:
                    return False
                return True if x and y else None
            if x or y:
                return True
            return False if x is False and y is False else None
        if k in ('eq', 'ne'):
            r = self._iszero(st, b[1])
            if r is None:
                return None
            return r if k == 'eq' else not r
        if k == 'le':
            lo, hi = self.bounds(st, b[1])
            if hi <= 0:
                return True
            if lo > 0:
                return False
            return None
        if k in ('ult', 'ule'):
            return self._ucmp(st, b)
        r = st.tr.get(b)
        return r

    def _ucmp(self, st, b):
        x, y = b[1], b[2]
        xl, xh = self.bounds(st, x)
        yl, yh = self.bounds(st, y)
        if xl >= 0 and yl >= 0:
            d = sub(x, y)
            if b[0] == 'ult':
                d = add(d, ONE)
            return self.truth(st, ('le', d))
        if xh < 0 and yl >= 0:
            return False
        if xl >= 0 and yh < 0:
            return True
        return st.tr.get(b)

    def _iszero(self, st, t):
        t = self.res(st, t)
        c, its = parts(t)
        if not its:
            return c == 0
        if len(its) == 1 and isbool(its[0][0]) and its[0][1] == 1:
            v = self.truth(st, its[0][0])
            if c == 0:
                return None if v is None else not v
            if c == -1:
                return v
        # distinct objects
        if len(its) == 2 and {its[0][1], its[1][1]} == {1, -1}:
            a, b = its[0][0], its[1][0]
            if a[0] in ('g', 'loc', 'alloc') and b[0] in ('g', 'loc', 'alloc') and a != b:
                return False
            for x, y in ((a, b), (b, a)):
                if x[0] in ('loc', 'alloc') and x not in st.esc and y[0] in ('s', 'm', 'h'):
                    return False
        lo, hi = self.bounds(st, t)
        if lo > 0 or hi < 0:
            return False
        if lo == 0 and hi == 0:
            return True
        f, s = self.keyof(its)
        n = st.ne.get(f)
        if n and (-c * s) in n:
            return False
        return None

    def assume(self, st, b, val):
        """refine st (in place); False if contradictory"""
        b = self.res(st, b)
        if not val:
            b = neg(b)
        t = self.truth(st, b)
        if t is not None:
            return t
        k = b[0]
        if k == 'and':
            return self.assume(st, b[1], True) and self.assume(st, b[2], True)
        if k == 'or':
            x = self.truth(st, b[1])
            if x is False:
                return self.assume(st, b[2], True)
            y = self.truth(st, b[2])
            if y is False:
                return self.assume(st, b[1], True)
            st.tr[b] = True
            return True
        if k == 'eq':
            return self._assume_eq(st, b[1])
        if k == 'ne':
            c, its = parts(b[1])
            if len(its) == 1 and isbool(its[0][0]):
                if c == 0:
                    return self.assume(st, its[0][0], True)
                if c == -1:
                    return self.assume(st, its[0][0], False)
                return True
            f, s = self.keyof(its)
            st.ne[f] = st.ne.get(f, frozenset()) | {-c * s}
            if len(f) > 1 and f in st.iv:
                l, h = self.inner(st, f, *st.iv[f])
                if l > h:
                    return False
                st.iv[f] = (l, h)
            return self._recheck(st, f)
        if k == 'le':
            return self._assume_le(st, b[1])
        if k in ('ult', 'ule'):
            x, y = b[1], b[2]
            yl, yh = self.bounds(st, y)
            xl, xh = self.bounds(st, x)
            d = sub(x, y)
            if b[0] == 'ult':
                d = add(d, ONE)
            if yl >= 0:
                return self._assume_le(st, scale(x, -1)) and self._assume_le(st, d)
            if xl >= 0:
                # x < y unsigned with y possibly negative: no information
                st.tr[b] = True
                return True
            st.tr[b] = True
            return True
        st.tr[b] = True
        st.tr[('not', b) if k != 'not' else b[1]] = False
        return True

    def inner(self, st, f, l, h):
        """the ends of an interval that are not excluded"""
        out = st.ne.get(f)
        if out:
            while l <= h and l in out:
                l += 1
            while l <= h and h in out:
                h -= 1
        return l, h

    def _assume_le(self, st, t):
        t = self.res(st, t)
        lo, hi = self.bounds(st, t)
        if lo > 0:
            return False
        if hi <= 0:
            return True
        c, its = parts(t)
        f, s = self.keyof(its)
        l, h = st.iv.get(f, (-INF, INF))
        if s > 0:
            h = min(h, -c)
        else:
            l = max(l, c)
        l, h = self.inner(st, f, l, h)
        if l > h:
            return False
        st.iv[f] = (l, h)
        if len(its) == 1:
            bl, bh = self.b1(st, its[0][0])
            if bl > bh:
                return False
            if bl == bh:
                return self._bind(st, its[0][0], C(bl))
        elif l == h and len(its) == 2 and {its[0][1], its[1][1]} == {1, -1}:
            # a - b == l
            return self._assume_eq(st, mk(-l, f))
        return self._recheck(st, f)

    def _recheck(self, st, f):
        names = {a for a, _ in f}
        for key, (l, h) in list(st.iv.items()):
            if len(key) < 2:
                continue
            if not any(a in names for a, _ in key):
                continue
            lo, hi = 0, 0
            for a, k in key:
                x, y = self.b1(st, a)
                if k > 0:
                    lo += k * x
                    hi += k * y
                else:
                    lo += k * y
                    hi += k * x
            if lo > h or hi < l:
                return False
        if len(f) == 1:
            l, h = self.b1(st, f[0][0])
            if l > h:
                return False
        return True

    def _assume_eq(self, st, t):
        t = self.res(st, t)
        c, its = parts(t)
        if not its:
            return c == 0
        if len(its) == 1 and isbool(its[0][0]) and its[0][1] == 1:
            if c == 0:
                return self.assume(st, its[0][0], False)
            if c == -1:
                return self.assume(st, its[0][0], True)
            return False
        # pick an atom to eliminate
        cand = [(a, k) for a, k in its if k in (1, -1) and a[0] in ('s', 'm', 'h', 'op')]
        if cand:
            def pri(x):
                a = x[0]
                return (a[0] != 's', a[0] != 'm')
            cand.sort(key=lambda x: okey(x[0]))
            for a, k in cand:
                rest = add(mk(c, its), scale(a, -k))
                if a not in atoms(rest):
                    return self._bind(st, a, scale(rest, -k))
        lo, hi = self.bounds(st, t)
        f, s = self.keyof(its)
        v = -c * s
        l, h = st.iv.get(f, (-INF, INF))
        if v < l or v > h:
            return False
        st.iv[f] = (v, v)
        return self._recheck(st, f)

    def _bind(self, st, a, t):
        lo, hi = self.b1(st, a)
        n = st.ne.get(((a, 1),))
        if isc(t):
            if t[1] < lo or t[1] > hi or (n and t[1] in n):
                return False
        st.sub[a] = t
        ivs = [(k, v) for k, v in st.iv.items() if any(x == a for x, _ in k)]
        nes = [(k, v) for k, v in st.ne.items() if any(x == a for x, _ in k)]
        for k, _ in ivs:
            del st.iv[k]
        for k, _ in nes:
            del st.ne[k]
        if not isc(t):
            if lo > -INF and not self._assume_le(st, sub(C(lo), t)):
                return False
            if hi < INF and not self._assume_le(st, sub(t, C(hi))):
                return False
        for k, (l, h) in ivs:
            x = self.res(st, mk(0, k))
            if l > -INF and not self._assume_le(st, sub(C(l), x)):
                return False
            if h < INF and not self._assume_le(st, sub(x, C(h))):
                return False
        for k, vs in nes:
            x = self.res(st, mk(0, k))
            for v in vs:
                if not self.assume(st, ('ne', add(x, C(-v))), True):
                    return False
        # opaque facts mentioning it
        return True

    def setrange(self, st, a, lo, hi):
        return self._assume_le(st, sub(C(lo), a)) and self._assume_le(st, sub(a, C(hi)))

    # ------------------------------------------------ memory
    def ctype_of_tag(self, tag):
        if tag in self._ctf:
            return self._ctf[tag]
        r = None
        if tag and isinstance(tag[0], str) and tag[0].startswith(('struct.', 'union.')):
            n = tag[0].split('@')[0].split('.', 1)[1]
            m = self.p.di_struct(n)
            if m and isinstance(tag[1], int):
                fs = self.p.structs.get(tag[0])
                if fs and tag[1] < len(fs):
                    off = self.p.offset(('struct', tag[0]), tag[1])
                    for nm, o, ct, sz in m:
                        if o == off:
                            r = ct
        self._ctf[tag] = r
        return r

    def global_value(self, g, off, ty):
        """value of an initialised global that nobody writes"""
        gv = self.p.globals.get(g)
        if gv is None or gv.init is None:
            return None
        if not gv.const and g in self.written_globals():
            return None
        return self.const_at(gv.ty, gv.init, off, ty)

    def written_globals(self):
        if self._written_globals is None:
            w = set()
            for f in self.p.functions.values():
                w |= self.eff.gmods[f.gid]
                # address handed to somebody who may write through it
            self._written_globals = w
        return self._written_globals

    def const_at(self, ty, v, off, want):
        if v[0] == 'zero':
            return ZERO if want[0] != 'fp' else ('f', 0.0)
        if ty[0] in ('int', 'ptr', 'fp'):
            if off == 0 and self.p.size(ty) == self.p.size(want):
                return self.cval(v)
            return None
        if v[0] == 'str':
            if want == I8 and off < len(v[1]):
                x = ord(v[1][off])
                return C(x - 256 if x > 127 else x)
            return None
        if v[0] != 'agg':
            return None
        if ty[0] == 'arr':
            sz = self.p.size(ty[2])
            i = off // sz
            if i < 0 or i >= len(v[1]):
                return None
            return self.const_at(v[1][i][0], v[1][i][1], off - i * sz, want)
        # struct: the initialiser may use a literal type of its own
        o = 0
        for t, x in v[1]:
            if ty[0] != 'packed':
                a = self.p.align(t)
                o = (o + a - 1) // a * a
            n = self.p.size(t)
            if o <= off < o + n:
                return self.const_at(t, x, off - o, want)
            o += n
        return None

    def cval(self, v):
        k = v[0]
        if k == 'c':
            return ('c', v[1])
        if k == 'g':
            return ('g', v[1])
        if k == 'zero':
            return ZERO
        if k == 'fp':
            return ('f', v[1])
        if k == 'cegep':
            t, idx = v[1], v[2]
            base = self.cval(idx[0][1])
            off = 0
            first = True
            for ity, iv in idx[1:]:
                if iv[0] != 'c':
                    return None
                if first:
                    off += iv[1] * self.p.size(t)
                    first = False
                elif t[0] in ('arr', 'vec'):
                    off += iv[1] * self.p.size(t[2])
                    t = t[2]
                else:
                    off += self.p.offset(t, iv[1])
                    t = self.p.fields(t)[iv[1]]
            return add(base, C(off))
        if k == 'cecast':
            return self.cval(v[3])
        return None

    def epoch(self, st, tag):
        e = st.ep.get(tag)
        if e is None:
            e = st.ep.get('*', 0)
        return e

    def load(self, fr, st, ins, addr, ty, tag):
        addr = self.res(st, addr)
        size = self.p.size(ty)
        self.h.on_load(self, fr, st, ins, addr, size)
        e = st.mem.get(addr)
        if e is not None and e[1] == size:
            return self.res(st, e[0])
        r = root(addr)
        c, its = parts(addr)
        if r is not None and r[0] == 'g' and len(its) == 1:
            v = self.global_value(r[1], c, ty)
            if v is not None:
                return v
        if e is not None:
            # other width: low part of a bigger integer
            v = self.res(st, e[0])
            if isc(v) and size < e[1]:
                m = v[1] & ((1 << (8 * size)) - 1)
                if m >> (8 * size - 1):
                    m -= 1 << (8 * size)
                return C(m)
            if v[0] == 'm' and size < e[1] and r is not None and r[0] in ('loc', 'alloc'):
                # part of a word copied from elsewhere
                a = ('m', v[1], v[2], size, self.kind(ty))
                if a not in self.rng:
                    self.rng[a] = self.tyrange(ty, self.ctype_of_tag(tag))
                return self.res(st, a)
        k = self.kind(ty)
        if r is not None and r[0] in ('loc', 'alloc'):
            if r in st.zero:
                return ZERO if k != 'f' else ('f', 0.0)
            ep = self.epoch(st, tag)
            if not self.partially(st, addr, r):
                ep = 0
                self.h.on_undef(self, fr, st, ins, addr)
            a = ('m', addr, ('u', ep), size, k)
        else:
            a = ('m', addr, 0 if tag in self.h.immutable else self.epoch(st, tag), size, k)
        if a not in self.rng:
            self.rng[a] = self.tyrange(ty, self.ctype_of_tag(tag))
        return self.res(st, a)

    def partially(self, st, addr, r):
        """may the location have been written in a way the store does not track exactly?"""
        return ('any', r) in st.mem or r in st.esc

    def may_alias(self, st, a, asize, atag, b, bsize, btag):
        if a == b:
            return True
        ca, ia = parts(a)
        cb, ib = parts(b)
        if ia == ib:
            return not (ca + asize <= cb or cb + bsize <= ca)
        ra, rb = root(a), root(b)
        if ra is not None and rb is not None and ra != rb:
            for x, y in ((ra, rb), (rb, ra)):
                if x[0] in ('loc', 'alloc', 'g') and y[0] in ('loc', 'alloc', 'g'):
                    return False
                if x[0] in ('loc', 'alloc') and x not in st.esc:
                    return False
            if self.h.apart is not None and self.h.apart(self, ra, rb):
                return False
        if ra is not None and ra == rb:
            d = sub(a, b)
            lo, hi = self.bounds(st, d)
            if lo >= bsize or hi <= -asize:
                return False
            if atag is not None and btag is not None and atag != btag and atag[0] != 'raw' and btag[0] != 'raw':
                return False
            return True
        # different objects: only same-typed locations can coincide
        if atag is not None and btag is not None and atag[0] != 'raw' and btag[0] != 'raw':
            return atag == btag
        return asize == bsize and ca == cb

    def store(self, fr, st, ins, addr, val, ty, tag):
        addr = self.res(st, addr)
        val = self.res(st, val)
        size = self.p.size(ty)
        self.h.on_store(self, fr, st, ins, addr, val, size)
        self.put(fr, st, ins, addr, val, size, tag)

    def put(self, fr, st, ins, addr, val, size, tag):
        r = root(addr)
        dead = []
        for b, e in st.mem.items():
            if b != addr and b[0] != 'any' and e[2] not in self.h.immutable and self.may_alias(st, addr, size, tag, b, e[1], e[2]):
                dead.append(b)
        for b in dead:
            rb = root(b)
            del st.mem[b]
            if rb is not None and rb[0] in ('loc', 'alloc'):
                st.mem[('any', rb)] = (ONE, 0, None)
        if r is None or r[0] not in ('loc', 'alloc') or r in st.esc:
            st.ep[tag] = ('w', fr.act, ins.blk, ins.idx, self.it(fr, st, ins.blk))
        if r is not None and len(parts(addr)[1]) > 1 and r[0] in ('loc', 'alloc'):
            # some element was written: others can no longer be called untouched
            st.mem[('any', r)] = (ONE, 0, None)
        st.mem[addr] = (val, size, tag)
        for x in atoms(val):
            if x[0] in ('loc', 'alloc') and x not in st.esc:
                # stored somewhere that outlives or is shared
                if r is None or r[0] not in ('loc', 'alloc') or r in st.esc:
                    st.esc = st.esc | {x}

    def havoc_root(self, fr, st, ins, r, lo=None):
        """forget everything about the memory of a local object"""
        for b in [b for b in st.mem if b[0] != 'any' and root(b) == r]:
            del st.mem[b]
        st.mem[('any', r)] = (ONE, 0, None)
        st.zero = st.zero - {r}
        st.ep[('u', r)] = ('w', fr.act, ins.blk, ins.idx, self.it(fr, st, ins.blk))

    def havoc_call(self, fr, st, ins, targets, args):
        """effects of a call that is not looked into"""
        tags = set()
        g = set()
        ep = ('w', fr.act, ins.blk, ins.idx, self.it(fr, st, ins.blk))
        for t in targets:
            tags |= self.eff.mods[t]
            g |= self.eff.gmods[t]
            for k, offs in self.eff.pw[t].items():
                if k >= len(args):
                    continue
                a = self.res(st, args[k])
                for o in offs:
                    self.havoc_at(fr, st, ins, a, o)
        self.havoc_tags(fr, st, ins, tags, ep, g)
        for a in args:
            for x in atoms(a):
                if x[0] in ('loc', 'alloc') and x not in st.esc:
                    st.esc = st.esc | {x}

    def havoc_at(self, fr, st, ins, a, o):
        r = root(a)
        if r is None:
            return
        if o is None:
            if r[0] in ('loc', 'alloc'):
                self.havoc_root(fr, st, ins, r)
            else:
                for b in [b for b in st.mem if b[0] != 'any' and root(b) == r]:
                    del st.mem[b]
                st.ep[('raw', None)] = ('w', fr.act, ins.blk, ins.idx, self.it(fr, st, ins.blk))
            return
        ad = add(a, C(o))
        e = st.mem.get(ad)
        if e is None and r[0] not in ('loc', 'alloc'):
            return
        sz = e[1] if e else 8
        kind = 'i'
        if e and (is_ptr_atom(e[0]) or (e[0] == ZERO and sz == 8)):
            kind = 'p'
        if e is None:
            st.mem[('any', r)] = (ONE, 0, None)
            st.ep[('u', r)] = ('w', fr.act, ins.blk, ins.idx, self.it(fr, st, ins.blk))
            return
        h = ('h', fr.act, ins.blk, ins.idx, self.it(fr, st, ins.blk), okey(ad), kind)
        self.rng.setdefault(h, (0, 2 ** 63) if kind == 'p' else self.tyrange(('int', 8 * sz), self.ctype_of_tag(e[2])))
        st.mem[ad] = (h, sz, e[2])

    def havoc_tags(self, fr, st, ins, tags, ep, g=()):
        if not tags and not g:
            return
        raw = ('raw', None) in tags
        for b in list(st.mem):
            if b[0] == 'any':
                continue
            r = root(b)
            if r is not None and r[0] in ('loc', 'alloc') and r not in st.esc:
                continue
            e = st.mem[b]
            if e[2] in self.h.immutable:
                continue
            if e[2] in tags or (e[2] is None) or e[2][0] == 'raw' or (r is not None and r[0] == 'g' and r[1] in g):
                if self.h.tracked(b):
                    continue
                if e[2] is None or e[2][0] == 'raw':
                    if not raw and not ('elem',) in {t[:1] for t in tags}:
                        continue
                del st.mem[b]
                if r is not None and r[0] in ('loc', 'alloc'):
                    st.mem[('any', r)] = (ONE, 0, None)
        for t in tags:
            st.ep[t] = ep

    # ------------------------------------------------ execution
    def analyze(self, fn, args=None, st=None):
        st = st or St()
        act = self.act(0, fn.gid, ())
        fr = Frame(fn, act, self.cfg(fn), 0, None, None)
        if args is None:
            args = self.params(fr)
        self.steps = 0
        return fr, self.run(fr, args, st)

    def params(self, fr):
        out = []
        ct = self.p.param_ctypes(fr.fn) or []
        m = fr.fn.mod
        names = ct[1:] if len(ct) == len(fr.fn.params) + 1 else [None] * len(fr.fn.params)
        for (t, n), c in zip(fr.fn.params, names):
            a = ('s', fr.act, 'param:' + n, (), '', self.kind(t))
            self.rng[a] = self.tyrange(t, c)
            out.append(a)
        return out

    def run(self, fr, args, st):
        """[(state, return value)] for one activation"""
        fn, cfg = fr.fn, fr.cfg
        self.stats['functions'].add(fn.gid)
        env = {}
        for (t, n), a in zip(fn.params, args):
            env[n] = a
        entry = fn.order[0]
        pend = {entry: [(env, st, None)]}
        heap = [(cfg.num[entry], entry)]
        inq = {entry}
        rets = []
        while heap:
            _, b = heapq.heappop(heap)
            inq.discard(b)
            batch = pend.pop(b, [])
            batch = self.prepare(fr, b, batch)
            for env, st in batch:
                for (succ, e2, s2) in self.block(fr, b, env, st, rets):
                    if succ not in cfg.num:
                        continue
                    pend.setdefault(succ, []).append((e2, s2, b))
                    if succ not in inq:
                        inq.add(succ)
                        heapq.heappush(heap, (cfg.num[succ], succ))
        return self.finish(fr, rets)

    def finish(self, fr, rets):
        out = {}
        for st, v in rets:
            v = self.res(st, v) if v is not None else None
            # locals of this activation are gone
            for k in [k for k in st.mem if (root(k) if k[0] != 'any' else k[1]) is not None and
                      (root(k) if k[0] != 'any' else k[1])[0] == 'loc' and (root(k) if k[0] != 'any' else k[1])[1] == fr.act]:
                del st.mem[k]
            st.loops = {k: x for k, x in st.loops.items() if k[0] != fr.act}
            st.its = {k: x for k, x in st.its.items() if k[0] != fr.act}
            if fr.parent is not None:
                self.gc(fr, st, v)
            key = (v, st.key())
            out.setdefault(key, (st, v))
        return list(out.values())

    def gc(self, fr, st, v):
        """drop facts about symbols of this activation (and those below) nobody can see any more"""
        live = set()
        if v is not None:
            live |= atoms(v)
        for b, e in st.mem.items():
            if b[0] != 'any':
                live |= atoms(b)
                live |= atoms(e[0])
        pl = self.h.prop_atoms(st.prop) if hasattr(self.h, 'prop_atoms') else ()
        live |= set(pl)
        act = fr.act

        def dead(a):
            return a[0] in ('s', 'h') and a[1] >= act and a not in live

        def deadt(t):
            return any(dead(a) for a in atoms(t))
        # bindings of live atoms to dead ones keep the latter
        ch = True
        while ch:
            ch = False
            for a, t in st.sub.items():
                if a in live:
                    n = atoms(t) - live
                    if n:
                        live |= n
                        ch = True
        for a in [a for a in st.sub if dead(a) or deadt(a)]:
            del st.sub[a]
        for k in [k for k in st.iv if any(deadt(a) for a, _ in k)]:
            del st.iv[k]
        for k in [k for k in st.ne if any(deadt(a) for a, _ in k)]:
            del st.ne[k]
        for k in [k for k in st.tr if deadt(k)]:
            del st.tr[k]

    def prepare(self, fr, b, batch):
        """phis, loop headers, merging"""
        fn, cfg = fr.fn, fr.cfg
        blk = fn.blocks[b]
        out = []
        backs = []
        for env, st, pred in batch:
            e2 = dict(env)
            for i in blk.ins:
                if i.op != 'phi':
                    break
                for v, pb in i.x:
                    if pb == pred:
                        e2[i.res] = self.val(fr, env, st, v)
                        break
            if b in cfg.loops:
                if (pred, b) in cfg.back:
                    backs.append((e2, st))
                    continue
                rec = LoopRec(b, self.trim(fr, b, e2), st.clone())
                st.loops[(fr.act, b)] = rec
                st.its[(fr.act, b)] = 0
                rec.seen.add((st.prop, ()))
            out.append((e2, st))
        if backs:
            for e2, st in backs:
                self.grow(fr, b, e2, st)
            for e2, st in backs:
                out += self.backedge(fr, b, e2, st)
        live = cfg.live_in[b] | {i.res for i in blk.ins if i.op == 'phi'}
        uniq = {}
        for env, st in out:
            env = {k: v for k, v in env.items() if k in live}
            if len(out) > 1:
                if len(out) > 6:
                    self.gc_env(fr, env, st)
                key = (frozenset(env.items()), st.key(), tuple(sorted((k[1], v) for k, v in st.its.items() if k[0] == fr.act)))
            else:
                key = 0
            uniq.setdefault(key, (env, st))
        res = list(uniq.values())
        self.stats['states'] += len(res)
        self.stats['blocks'].add((fn.gid, b))
        if len(res) > self.o.cap:
            res = self.join_all(fr, res)
        return res

    def trim(self, fr, b, env):
        live = fr.cfg.live_in[b] | {i.res for i in fr.fn.blocks[b].ins if i.op == 'phi'}
        return {k: v for k, v in env.items() if k in live}

    def gc_env(self, fr, env, st):
        v = ('tup',) + tuple(env.values())
        live = set()
        for x in env.values():
            live |= atoms(self.res(st, x)) | atoms(x)
        for b, e in st.mem.items():
            if b[0] != 'any':
                live |= atoms(b)
                live |= atoms(e[0])
        if hasattr(self.h, 'prop_atoms'):
            live |= set(self.h.prop_atoms(st.prop))
        # loop records restart from their own states, nothing to keep for them
        act = fr.act

        def dead(a):
            return a[0] in ('s', 'h') and a[1] >= act and a not in live and not (isinstance(a[2], str) and a[2].startswith('param:'))

        ch = True
        while ch:
            ch = False
            for a, t in st.sub.items():
                if a in live:
                    n = atoms(t) - live
                    if n:
                        live |= n
                        ch = True

        def deadt(t):
            return any(dead(a) for a in atoms(t))
        for a in [a for a in st.sub if deadt(a)]:
            del st.sub[a]
        for k in [k for k in st.iv if any(deadt(a) for a, _ in k)]:
            del st.iv[k]
        for k in [k for k in st.ne if any(deadt(a) for a, _ in k)]:
            del st.ne[k]
        for k in [k for k in st.tr if deadt(k)]:
            del st.tr[k]

    # -------- joins
    def join_all(self, fr, states):
        """too many states: join those with the same property state"""
        groups = {}
        for env, st in states:
            k = (st.prop, tuple(sorted((b, e[0]) for b, e in st.mem.items() if b[0] != 'any' and self.h.tracked(b))),
                 tuple(sorted((k, v) for k, v in st.its.items() if k[0] == fr.act)),
                 tuple(sorted(k for k, v in env.items() if v is not None and v[0] == 'c' and v[1] < 0)),
                 tuple(sorted(k for k, v in env.items() if v == ZERO)))
            groups.setdefault(repr(k), []).append((env, st))
        if len(groups) > self.o.cap:
            # too many kinds as well
            g2 = {}
            for k, g in groups.items():
                env, st = g[0]
                k = repr((st.prop, sorted((b, e[0]) for b, e in st.mem.items() if b[0] != 'any' and self.h.tracked(b)),
                          sorted((k, v) for k, v in st.its.items() if k[0] == fr.act)))
                g2.setdefault(k, []).extend(g)
            groups = g2
        out = []
        for k, g in groups.items():
            if len(g) > max(1, self.o.cap // max(1, len(groups))):
                self.stats['joined'] += len(g) - 1
                env, st = g[0]
                for e2, s2 in g[1:]:
                    env, st = self.join(fr, env, st, e2, s2)
                out.append((env, st))
            else:
                out += g
        return out

    def join(self, fr, e1, s1, e2, s2):
        st = St()
        st.prop = self.h.prop_join(s1.prop, s2.prop)
        st.trail = s1.trail
        st.its, st.loops = dict(s1.its), dict(s1.loops)
        st.esc = s1.esc | s2.esc
        st.zero = s1.zero & s2.zero
        for t in set(s1.ep) | set(s2.ep):
            a, b = s1.ep.get(t), s2.ep.get(t)
            st.ep[t] = a if a == b else ('j', okey(('ep', a, b)))
            if a == b and a is None:
                del st.ep[t]
        for k in s1.iv:
            if k in s2.iv:
                a, b = s1.iv[k], s2.iv[k]
                st.iv[k] = (min(a[0], b[0]), max(a[1], b[1]))
        for k in s1.ne:
            if k in s2.ne:
                n = s1.ne[k] & s2.ne[k]
                if n:
                    st.ne[k] = n
        for k in s1.tr:
            if s2.tr.get(k) == s1.tr[k]:
                st.tr[k] = s1.tr[k]
        for k in s1.sub:
            if s2.sub.get(k) == s1.sub[k]:
                st.sub[k] = s1.sub[k]

        def jv(tag, x, y):
            x, y = self.res(s1, x), self.res(s2, y)
            if x == y:
                return x
            self._fresh += 1
            kind = 'i'
            for z in (x, y):
                r = root(z)
                if r is not None and (is_ptr_atom(r)):
                    kind = 'p'
            a = ('s', fr.act, 'join%d' % self._fresh, (), tag, kind)
            l1, h1 = self.bounds(s1, x) if x[0] != 'f' else (-INF, INF)
            l2, h2 = self.bounds(s2, y) if y[0] != 'f' else (-INF, INF)
            self.rng[a] = (min(l1, l2), max(h1, h2))
            return a
        env = {}
        for k in e1:
            if k in e2:
                env[k] = jv('e', e1[k], e2[k])
        for b in set(s1.mem) | set(s2.mem):
            x, y = s1.mem.get(b), s2.mem.get(b)
            if b[0] == 'any':
                st.mem[b] = x or y
                continue
            if x is not None and y is not None and x[1] == y[1]:
                st.mem[b] = (jv('m', x[0], y[0]), x[1], x[2])
            else:
                r = root(b)
                if r is not None and r[0] in ('loc', 'alloc'):
                    st.mem[('any', r)] = (ONE, 0, None)
                else:
                    t = (x or y)[2]
                    st.ep[t] = ('j', okey(('ep', st.ep.get(t), b)))
        return env, st

    # -------- loops
    def grow(self, fr, h, env, st):
        """note what an iteration changed; constants that stay small are told apart"""
        rec = st.loops.get((fr.act, h))
        if rec is None:
            return None
        phis = [i for i in fr.fn.blocks[h].ins if i.op == 'phi']
        grew = False
        consts = []
        for i in phis:
            ev = rec.entry_env.get(i.res)
            nv = env.get(i.res)
            if ev is None or nv is None:
                continue
            nv = self.res(st, nv)
            if i.res in rec.hav or self.res(st, ev) == nv:
                continue
            small = i.ty[0] == 'int' and i.ty[1] <= 8
            if small and isc(nv):
                consts.append((i.res, nv))
                continue
            rec.hav.add(i.res)
            grew = True
        es = rec.entry_st
        for b, e in st.mem.items():
            if b[0] == 'any':
                if b not in es.mem and b not in rec.havmem and (b[1][0] == 'loc' or rec.knows(b[1])):
                    rec.havmem.add(b)
                    grew = True
                continue
            o = es.mem.get(b)
            if o is not None and o[0] == e[0]:
                continue
            if b in rec.havmem:
                continue
            v = self.res(st, e[0])
            if o is not None and (self.res(st, o[0]) == v):
                continue
            r = root(b)
            if o is None and r is not None and r[0] == 'alloc' and not rec.knows(r):
                continue
            if isc(v) and (self.h.tracked(b) or (e[1] == 1 and (o is None or isc(o[0])))):
                consts.append((b, v))
                continue
            if o is None and v[0] == 'm' and v[1] == b:
                continue
            if o is None and any(x[0] == 's' and x[1] == fr.act and x[3] and (fr.act, h) in st.its and
                                 self.varies(fr, h, x) for x in atoms(b)):
                # an address of this iteration only
                if r is not None and r[0] in ('loc', 'alloc') and ('any', r) not in rec.havmem:
                    rec.havmem.add(('any', r))
                    grew = True
                continue
            rec.havmem.add(b)
            grew = True
        for b, o in es.mem.items():
            if b[0] != 'any' and b not in st.mem and b not in rec.havmem:
                rec.havmem.add(b)
                grew = True
        for t, e in st.ep.items():
            if es.ep.get(t) != e and t not in rec.havep:
                rec.havep.add(t)
                grew = True
        if grew:
            rec.seen = set()
        return tuple(sorted(consts, key=lambda x: okey(('k', x))))

    def varies(self, fr, h, x):
        """is the symbol defined inside the loop?"""
        k = (fr.fn.gid, h)
        d = self._inloop.get(k)
        if d is None:
            d = self._inloop[k] = {i.res for b in fr.cfg.loops[h] for i in fr.fn.blocks[b].ins if i.res}
        return x[2] in d

    def backedge(self, fr, h, env, st):
        rec = st.loops.get((fr.act, h))
        if rec is None:
            return []
        consts = self.grow(fr, h, env, st)
        phis = [i for i in fr.fn.blocks[h].ins if i.op == 'phi']
        es = rec.entry_st
        key = (st.prop, consts)
        if key in rec.seen or rec.n > 40:
            return []
        rec.seen.add(key)
        rec.n += 1
        # a fresh iteration
        s = es.clone()
        s.prop = st.prop
        s.trail = st.trail
        s.loops[(fr.act, h)] = rec
        s.its[(fr.act, h)] = rec.n
        s.esc = es.esc | frozenset(x for x in st.esc)
        s.zero = es.zero & st.zero
        e2 = dict(rec.entry_env)
        cd = dict(consts)
        for t in rec.havep:
            s.ep[t] = ('l', fr.act, h, rec.n)
        for b in rec.havmem:
            if b[0] == 'any':
                s.mem[b] = (ONE, 0, None)
                continue
            o = s.mem.pop(b, None)
            r = root(b)
            if r is not None and r[0] in ('loc', 'alloc'):
                x = st.mem.get(b) or o
                if x is None:
                    s.mem[('any', r)] = (ONE, 0, None)
                    continue
                kind = 'p' if (root(x[0]) is not None or (x[1] == 8 and x[2] is None)) else 'i'
                a = ('h', fr.act, h, rec.n, (), okey(b), kind)
                if a not in self.rng:
                    self.rng[a] = (0, 2 ** 63) if kind == 'p' else self.tyrange(('int', 8 * x[1]), self.ctype_of_tag(x[2]))
                s.mem[b] = (a, x[1], x[2])
        for b, v in consts:
            if isinstance(b, tuple):
                x = st.mem[b]
                s.mem[b] = x
            else:
                e2[b] = v
        for i in phis:
            if i.res in rec.hav:
                a = ('s', fr.act, i.res, self.it(fr, s, h), '', self.kind(i.ty))
                self.rng[a] = self.tyrange(i.ty, self.phi_ctype(fr, i))
                e2[i.res] = a
                d = self.deltas(fr, h, i)
                ev = rec.entry_env.get(i.res)
                if d and ev is not None and i.ty[0] in ('int', 'ptr'):
                    if min(d) >= 0:
                        if not self._assume_le(s, sub(ev, a)):
                            return []
                    elif max(d) <= 0:
                        if not self._assume_le(s, sub(a, ev)):
                            return []
        self.hook_header(fr, h, e2, s)
        return [(e2, s)]

    def hook_header(self, fr, h, env, st):
        pass

    def phi_ctype(self, fr, i):
        return None

    def deltas(self, fr, h, phi):
        """the constants by which an iteration changes a header phi, or None"""
        body = fr.cfg.loops[h]
        out = set()
        defs = self.eff.defs(fr.fn)
        seen = set()

        def go(v, d, depth):
            if depth > 40:
                return False
            if v == ('l', phi.res):
                out.add(d)
                return True
            if v[0] != 'l':
                return False
            i = defs.get(v[1])
            if i is None or i.blk not in body:
                return False
            if i.op == 'add' and i.a[1][1][0] == 'c':
                return go(i.a[0][1], d + i.a[1][1][1], depth + 1)
            if i.op == 'sub' and i.a[1][1][0] == 'c':
                return go(i.a[0][1], d - i.a[1][1][1], depth + 1)
            if i.op == 'gep':
                o = self.eff.const_off(i)
                if o is None:
                    return False
                return go(i.a[0][1], d + o, depth + 1)
            if i.op == 'phi' and i.res != phi.res:
                if (i.res, d) in seen:
                    return True
                seen.add((i.res, d))
                if len(seen) > 30:
                    return False
                return all(go(x, d, depth + 1) for x, _ in i.x)
            if i.op == 'select':
                return go(i.a[1][1], d, depth + 1) and go(i.a[2][1], d, depth + 1)
            if i.op in ('sext', 'zext', 'trunc'):
                return go(i.a[0][1], d, depth + 1)
            return False
        for v, pb in phi.x:
            if (pb, h) in fr.cfg.back:
                if not go(v, 0, 0):
                    return None
        return out

    # -------- instructions
    def val(self, fr, env, st, v):
        k = v[0]
        if k == 'l':
            x = env.get(v[1])
            if x is None:
                a = ('s', fr.act, 'undef:' + v[1], (), '', 'i')
                return a
            return self.res(st, x)
        if k == 'c':
            return v
        if k == 'g':
            return v
        if k == 'undef':
            return ('s', 0, 'undef', (), '', 'i')
        r = self.cval(v)
        if r is None:
            return ('s', 0, 'const:' + repr(v)[:60], (), '', 'i')
        return r

    def block(self, fr, b, env, st, rets):
        """[(successor, env, state)]"""
        out = []
        work = [(0, dict(env), st)]
        ins = fr.fn.blocks[b].ins
        while work:
            idx, env, st = work.pop()
            while True:
                i = ins[idx]
                op = i.op
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget(fr.fn.name)
                if op == 'phi':
                    idx += 1
                    continue
                if op == 'br':
                    if len(i.x) == 1:
                        out.append((i.x[0], env, st))
                        break
                    c = self.val(fr, env, st, i.a[0][1])
                    t = self.truth(st, c)
                    if t is not None:
                        out.append((i.x[0] if t else i.x[1], env, st))
                        break
                    s2 = st.clone()
                    if self.assume(st, c, True):
                        st.trail = (st.trail, i, 'true')
                        self.loop_exit(fr, b, i.x[0], env, st)
                        out.append((i.x[0], env, st))
                    if self.assume(s2, c, False):
                        s2.trail = (s2.trail, i, 'false')
                        self.loop_exit(fr, b, i.x[1], env, s2)
                        out.append((i.x[1], dict(env), s2))
                    break
                if op == 'switch':
                    v = self.val(fr, env, st, i.a[0][1])
                    d, cases = i.x
                    if isc(v):
                        for cv, l in cases:
                            if cv == v[1]:
                                out.append((l, env, st))
                                break
                        else:
                            out.append((d, env, st))
                        break
                    by = {}
                    for cv, l in cases:
                        by.setdefault(l, []).append(cv)
                    for l, cvs in by.items():
                        for cv in cvs:
                            s2 = st.clone()
                            if self.assume(s2, ('eq', sub(v, C(cv))), True):
                                s2.trail = (s2.trail, i, 'case %d' % cv)
                                out.append((l, dict(env), s2))
                    ok = True
                    for cv, l in cases:
                        if not self.assume(st, ('ne', sub(v, C(cv))), True):
                            ok = False
                            break
                    if ok:
                        st.trail = (st.trail, i, 'default')
                        out.append((d, env, st))
                    break
                if op == 'ret':
                    v = self.val(fr, env, st, i.a[0][1]) if i.a else None
                    st.trail = (st.trail, i, 'return')
                    rets.append((st, v))
                    self.stats['paths'] += 1
                    break
                if op == 'unreachable':
                    break
                if op == 'call':
                    res = self.call(fr, i, env, st)
                    if not res:
                        break
                    nxt = None
                    for k, (s2, v) in enumerate(res):
                        e2 = env if k == 0 else dict(env)
                        if i.res is not None:
                            if v is None:
                                v = self.sym(fr, s2, i, i.ty)
                            e2 = dict(e2)
                            e2[i.res] = v
                        if k == 0:
                            nxt = (e2, s2)
                        else:
                            work.append((idx + 1, e2, s2))
                    env, st = nxt
                    idx += 1
                    continue
                if op == 'select':
                    c = self.val(fr, env, st, i.a[0][1])
                    t = self.truth(st, c)
                    if t is None:
                        s2 = st.clone()
                        if self.assume(s2, c, False):
                            e2 = dict(env)
                            e2[i.res] = self.val(fr, env, s2, i.a[2][1])
                            work.append((idx + 1, e2, s2))
                        if not self.assume(st, c, True):
                            break
                        t = True
                    env[i.res] = self.val(fr, env, st, i.a[1][1] if t else i.a[2][1])
                    idx += 1
                    continue
                self.simple(fr, i, env, st)
                idx += 1
        return out

    def loop_exit(self, fr, b, succ, env, st):
        """leaving a counting loop through its header test: the counter equals the bound"""
        for h in fr.cfg.inloops.get(b, ()):
            if b != h or succ in fr.cfg.loops[h]:
                continue
            rec = st.loops.get((fr.act, h))
            if rec is None or not rec.hav:
                continue
            term = fr.fn.blocks[b].ins[-1]
            defs = self.eff.defs(fr.fn)
            c = defs.get(term.a[0][1][1]) if term.a[0][1][0] == 'l' else None
            if c is None or c.op != 'icmp' or c.x not in ('slt', 'ult', 'sgt', 'ugt', 'ne', 'sge', 'uge', 'sle', 'ule'):
                continue
            for i in fr.fn.blocks[h].ins:
                if i.op != 'phi' or i.res not in rec.hav or i.ty[0] not in ('int', 'ptr'):
                    continue
                d = self.deltas(fr, h, i)
                if d not in ({1}, {0, 1}):
                    continue
                x = env.get(i.res)
                ev = rec.entry_env.get(i.res)
                if x is None or ev is None:
                    continue
                for me, other, preds in ((c.a[0][1], c.a[1][1], ('slt', 'ult', 'ne')), (c.a[1][1], c.a[0][1], ('sgt', 'ugt', 'ne'))):
                    if c.x not in preds:
                        continue
                    mv = self.val(fr, env, st, me)
                    if self.res(st, mv) != self.res(st, x):
                        continue
                    n = self.val(fr, env, st, other)
                    if any(a[0] == 's' and a[1] == fr.act and a[3] and a[3] == self.it(fr, st, h) for a in atoms(n)):
                        continue
                    if any(a[0] == 'm' and isinstance(a[2], tuple) and a[2][0] in ('w', 'l') and a[2][1] == fr.act and
                           a[2][2] in fr.cfg.loops[h] for a in atoms(n)):
                        continue
                    if self.truth(st, ('le', sub(ev, n))):
                        self._assume_le(st, sub(x, n))

    def simple(self, fr, i, env, st):
        op = i.op
        if op == 'alloca':
            a = ('loc', fr.act, i.res)
            env[i.res] = a
            if i.a:
                pass
            # a fresh, uninitialised object in every iteration
            return
        if op == 'load':
            addr = self.val(fr, env, st, i.a[0][1])
            fs = self.p.fields(i.ty) if i.ty[0] in ('lit', 'struct') else ()
            if fs and len(fs) <= 4 and all(f[0] in ('ptr', 'int') for f in fs):
                env[i.res] = ('tup',) + tuple(self.load(fr, st, i, add(addr, C(self.p.offset(i.ty, k))), f, None) for k, f in enumerate(fs))
                return
            env[i.res] = self.load(fr, st, i, addr, i.ty, self.eff.tag(fr.fn, i.a[0][1]))
            self.h.loaded(self, fr, st, i, addr, env[i.res])
            return
        if op == 'store':
            v = self.val(fr, env, st, i.a[0][1])
            addr = self.val(fr, env, st, i.a[1][1])
            self.store(fr, st, i, addr, v, i.a[0][0], self.eff.tag(fr.fn, i.a[1][1]))
            return
        if op == 'gep':
            env[i.res] = self.gep(fr, i, env, st)
            return
        if op in ('icmp',):
            a = self.val(fr, env, st, i.a[0][1])
            b = self.val(fr, env, st, i.a[1][1])
            env[i.res] = self.icmp(st, i.x, a, b)
            return
        if op == 'fcmp':
            a = self.val(fr, env, st, i.a[0][1])
            b = self.val(fr, env, st, i.a[1][1])
            env[i.res] = self.fcmp(i.x, a, b)
            return
        if op in Module.BIN:
            a = self.val(fr, env, st, i.a[0][1])
            b = self.val(fr, env, st, i.a[1][1])
            self.h.on_bin(self, fr, st, i, a, b)
            env[i.res] = self.binop(st, op, a, b, i.ty)
            return
        if op in Module.CAST:
            env[i.res] = self.cast(st, op, i.a[0][0], i.ty, self.val(fr, env, st, i.a[0][1]))
            return
        if op == 'fneg':
            env[i.res] = ('op', 'fneg', self.val(fr, env, st, i.a[0][1]))
            return
        if op == 'freeze':
            env[i.res] = self.val(fr, env, st, i.a[0][1])
            return
        if op == 'extractvalue':
            v = self.val(fr, env, st, i.a[0][1])
            if v[0] == 'tup':
                env[i.res] = v[1 + i.x]
            else:
                env[i.res] = self.sym(fr, st, i, PTR if i.x is None else None)
            return
        if op == 'insertvalue':
            v = self.val(fr, env, st, i.a[0][1])
            w = self.val(fr, env, st, i.a[1][1])
            n = len(self.p.fields(i.a[0][0]))
            cur = list(v[1:]) if v[0] == 'tup' else [('s', 0, 'undef', (), '', 'i')] * n
            cur[i.x] = w
            env[i.res] = ('tup',) + tuple(cur)
            return
        raise IRError('cannot interpret %r' % i)

    def gep(self, fr, i, env, st):
        base = self.val(fr, env, st, i.a[0][1])
        t = i.x
        first = True
        if t[0] == 'struct':
            self.h.on_gep(self, fr, st, i, base)
        for ity, iv in i.a[1:]:
            x = self.val(fr, env, st, iv)
            if first:
                base = add(base, scale(x, self.p.size(t)))
                first = False
            elif t[0] in ('arr', 'vec'):
                base = add(base, scale(x, self.p.size(t[2])))
                t = t[2]
            else:
                base = add(base, C(self.p.offset(t, x[1])))
                t = self.p.fields(t)[x[1]]
        return base

    def icmp(self, st, pred, a, b):
        if pred in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if isbool(x) and isc(y):
                    r = neg(x) if y[1] == 0 else x if y[1] in (1, -1) else ZERO
                    return r if pred == 'eq' else neg(r)
            if a[0] in ('f', 'tup') or b[0] in ('f', 'tup'):
                return ('op', 'icmp', pred, a, b)
            d = sub(a, b)
            c, its = parts(d)
            if not its:
                return C(int((c == 0) == (pred == 'eq')))
            f, s = self.keyof(its)
            return (pred, mk(c * s, f))
        if pred == 'slt':
            return self.le(add(sub(a, b), ONE))
        if pred == 'sle':
            return self.le(sub(a, b))
        if pred == 'sgt':
            return self.le(add(sub(b, a), ONE))
        if pred == 'sge':
            return self.le(sub(b, a))
        if pred == 'ult':
            return self.ucmp('ult', a, b)
        if pred == 'ule':
            return self.ucmp('ule', a, b)
        if pred == 'ugt':
            return self.ucmp('ult', b, a)
        return self.ucmp('ule', b, a)

    def le(self, t):
        if isc(t):
            return C(int(t[1] <= 0))
        return ('le', t)

    def ucmp(self, k, a, b):
        if isc(a) and isc(b):
            x, y = a[1] % 2 ** 64, b[1] % 2 ** 64
            return C(int(x < y if k == 'ult' else x <= y))
        return (k, a, b)

    def fcmp(self, pred, a, b):
        return ('fcmp', pred, a, b)

    def binop(self, st, op, a, b, ty):
        if ty[0] == 'fp':
            if self.o.foldfp and a[0] == 'f' and b[0] == 'f' and isinstance(a[1], float) and isinstance(b[1], float):
                if op in ('fadd', 'fsub', 'fmul') or op == 'fdiv' and b[1]:
                    return ('f', {'fadd': a[1] + b[1], 'fsub': a[1] - b[1], 'fmul': a[1] * b[1], 'fdiv': a[1] / (b[1] or 1.0)}[op])
            if op in ('fadd', 'fmul') and okey(b) < okey(a):
                a, b = b, a
            return ('op', op, a, b)
        n = ty[1]
        if n == 1:
            if op == 'xor':
                if isc(b):
                    return neg(a) if b[1] else a
                if isc(a):
                    return neg(b) if a[1] else b
                return ('op', 'xor', a, b)
            if op in ('and', 'or'):
                if isc(a) or isc(b):
                    if isc(b):
                        a, b = b, a
                    if op == 'and':
                        return b if a[1] else ZERO
                    return ONE if a[1] else b
                return (op, a, b)
        if op == 'add':
            return self.wrap(add(a, b), n)
        if op == 'sub':
            return self.wrap(sub(a, b), n)
        if op == 'mul':
            if isc(a):
                return self.wrap(scale(b, a[1]), n)
            if isc(b):
                return self.wrap(scale(a, b[1]), n)
            if okey(b) < okey(a):
                a, b = b, a
            t = ('op', 'mul', a, b)
            if t not in self.rng:
                l1, h1 = self.bounds(st, a)
                l2, h2 = self.bounds(st, b)
                if l1 >= 0 and l2 >= 0:
                    self.rng[t] = (0, INF)
            return t
        if op == 'shl' and isc(b) and 0 <= b[1] < 63:
            return self.wrap(scale(a, 1 << b[1]), n)
        if isc(a) and isc(b):
            r = self.fold(op, a[1], b[1], n)
            if r is not None:
                return C(r)
        if op == 'xor' and isbool(a) and isc(b) and b[1] == 1:
            return neg(a)
        if op in ('or', 'and', 'xor') and isc(a) and not isc(b):
            a, b = b, a
        if op in ('or', 'xor') and b == ZERO:
            return a
        if op == 'and' and b == ZERO:
            return ZERO
        if op == 'and' and isc(b) and b[1] == -1:
            return a
        if op in ('sdiv', 'udiv') and b == ONE:
            return a
        t = ('op', op, a, b) if op in ('sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr') else ('op', op) + tuple(sorted((a, b), key=okey))
        if t not in self.rng:
            lo, hi = self.tyrange(ty)
            al, ah = self.bounds(st, a)
            bl, bh = self.bounds(st, b)
            if op == 'and':
                if bl >= 0:
                    lo, hi = 0, bh
                if al >= 0:
                    lo, hi = 0, min(hi, ah)
            elif op in ('udiv', 'lshr', 'urem') and al >= 0:
                lo, hi = 0, ah
                if op == 'urem' and bl > 0:
                    hi = min(hi, bh - 1)
                if op == 'lshr' and isc(b):
                    hi = ah >> b[1]
                if op == 'udiv' and isc(b) and b[1] > 0:
                    hi = ah // b[1]
            elif op in ('sdiv', 'ashr') and al >= 0 and (op == 'ashr' or bl >= 1):
                lo, hi = 0, ah
                if op == 'sdiv':
                    hi = ah // max(1, bl)
                    lo = al // max(1, bh)
            elif op == 'srem' and bl > 0:
                lo, hi = (0 if al >= 0 else -(bh - 1)), bh - 1
            elif op in ('or',) and al >= 0 and bl >= 0:
                lo = max(al, bl)
                m = max(ah, bh)
                hi = (1 << m.bit_length()) - 1 if m < 2 ** 64 else hi
            self.rng[t] = (lo, hi)
            if isinstance(self.rng[t][0], int) and False:
                pass
        return t

    def wrap(self, t, n):
        if isc(t):
            v = t[1]
            if not -2 ** (n - 1) <= v < 2 ** n:
                v &= (1 << n) - 1
                if v >> (n - 1):
                    v -= 1 << n
            return C(v)
        return t

    def fold(self, op, a, b, n):
        M = (1 << n) - 1
        if op in ('and', 'or', 'xor'):
            r = {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        elif op == 'shl':
            r = a << b if 0 <= b < n else 0
        elif op == 'lshr':
            r = (a & M) >> b if 0 <= b < n else 0
        elif op == 'ashr':
            r = a >> b if 0 <= b < n else 0
        elif b == 0:
            return None
        elif op == 'sdiv':
            r = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
        elif op == 'srem':
            q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
            r = a - q * b
        elif op == 'udiv':
            r = (a & M) // (b & M)
        elif op == 'urem':
            r = (a & M) % (b & M)
        else:
            return None
        r &= M
        if r >> (n - 1):
            r -= 1 << n
        return r

    def cast(self, st, op, sty, dty, v):
        if op in ('sext', 'ptrtoint', 'inttoptr', 'bitcast'):
            return v
        if op == 'zext':
            if sty[1] == 1:
                return v
            lo, hi = self.bounds(st, v) if v[0] not in ('f', 'tup') else (0, 0)
            if lo >= 0:
                return v
            if isc(v):
                return C(v[1] & ((1 << sty[1]) - 1))
            t = ('op', 'zext', C(sty[1]), v)
            self.rng.setdefault(t, (0, 2 ** sty[1] - 1))
            return t
        if op == 'trunc':
            n = dty[1]
            if n == 1:
                if isbool(v):
                    return v
                if isc(v):
                    return C(v[1] & 1)
                if v[0] == 'op' and v[1] == 'zext':
                    v = v[3]
                return ('ne', v)
            if isbool(v):
                return v
            if isc(v):
                x = v[1] & ((1 << n) - 1)
                if x >> (n - 1):
                    x -= 1 << n
                return C(x)
            if v[0] == 'op' and v[1] == 'zext' and v[2] == C(n):
                return v[3]
            lo, hi = self.bounds(st, v)
            if lo >= -2 ** (n - 1) and hi < 2 ** n:
                return v
            t = ('op', 'trunc', C(n), v)
            self.rng.setdefault(t, (-2 ** (n - 1), 2 ** (n - 1) - 1))
            return t
        if self.o.foldfp and isc(v) and op in ('sitofp', 'uitofp') and (v[1] >= 0 or op[0] == 's') and dty[1] == 'double':
            return ('f', float(v[1]))
        if self.o.foldfp and v[0] == 'f' and isinstance(v[1], float) and op in ('fptosi', 'fptoui') and abs(v[1]) < 2 ** 31 and sty[1] == 'double':
            return C(int(v[1]))
        t = ('op', op, C(dty[1] if isinstance(dty[1], int) else 32 if dty[1] == 'float' else 64), v)
        if op in ('fptosi', 'fptoui'):
            self.rng.setdefault(t, self.tyrange(dty))
        return t

    # -------- calls
    def targets(self, fr, i, env, st):
        if i.x[0] == 'g':
            return [i.x[1]]
        v = self.val(fr, env, st, i.x)
        if v[0] == 'g':
            return [v[1]]
        self.fp = v
        return sorted(self.eff.ind.get(i, ()))

    fp = None

    def call(self, fr, i, env, st):
        args = [self.val(fr, env, st, v) for t, v in i.a]
        self.fp = None
        ts = self.targets(fr, i, env, st)
        if self.fp is not None and hasattr(self.h, 'by_pointer'):
            r = self.h.by_pointer(self, fr, st, i, self.fp, ts, args)
            if r is not None:
                return r
        if not ts:
            # unknown callback supplied by the embedder: does as it likes with its own data
            r = self.h.on_call(self, fr, st, i, None, args)
            if r is not None:
                return r
            return [(st, self.sym(fr, st, i, i.ty) if i.res else None)]
        out = []
        if len(ts) > 1:
            r = self.h.contract_ind(self, fr, st, i, ts, args) if hasattr(self.h, 'contract_ind') else None
            if r is not None:
                return r
        for k, t in enumerate(ts):
            s = st if k == len(ts) - 1 else st.clone()
            out += self.call1(fr, i, t, args, s)
        if len(ts) > 1 and len(out) > self.o.retcap:
            pass
        return out

    def call1(self, fr, i, t, args, st):
        f = self.p.functions.get(t)
        name = f.name if f else extname(t)
        r = self.h.on_call(self, fr, st, i, f or name, args)
        if r is not None:
            return r
        m = self.models.get(name)
        if m is not None:
            r = m(self, fr, st, i, args)
            if r is not None:
                return self.after(fr, i, f or name, args, r)
        if f is None:
            return self.after(fr, i, name, args, self.extern(fr, st, i, name, args))
        r = self.h.contract(self, fr, st, i, f, args)
        if r is not None:
            return self.after(fr, i, f, args, r)
        if fr.chain.count(f.gid) > self.o.recur or fr.depth >= self.o.inline_depth or not self.inlinable(f):
            self.stats['havoc'].add(f.gid)
            self.havoc_call(fr, st, i, [f.gid], args)
            return self.after(fr, i, f, args, [(st, self.retsym(fr, st, i, f))])
        return self.after(fr, i, f, args, self.inline(fr, st, i, f, args))

    def after(self, fr, i, f, args, r):
        for s, v in r:
            self.h.after_call(self, fr, s, i, f, args, v)
        return r

    def inlinable(self, f):
        return sum(len(b.ins) for b in f.blocks.values()) <= self.o.inline_size

    def inline(self, fr, st, i, f, args):
        self.stats['inlined'] += 1
        act = self.act(fr.act, (i.fn.gid, i.blk, i.idx, f.gid), self.it(fr, st, i.blk))
        nf = Frame(f, act, self.cfg(f), fr.depth + 1, fr, i)
        args = list(args)
        if len(args) < len(f.params):
            return [(st, self.retsym(fr, st, i, f))]
        r = self.run(nf, args[:len(f.params)], st)
        if len(r) > self.o.retcap:
            r = self.join_rets(nf, r)
        return r

    def join_rets(self, fr, r):
        groups = {}
        for st, v in r:
            if v is None:
                c = None
            elif isc(v):
                c = v
            else:
                lo, hi = self.bounds(st, v) if v[0] not in ('f', 'tup') else (0, 0)
                c = 'pos' if lo > 0 else 'neg' if hi < 0 else 'any'
            k = repr((c, st.prop, sorted((okey(b), e[0]) for b, e in st.mem.items() if b[0] != 'any' and self.h.tracked(b))))
            groups.setdefault(k, []).append((st, v))
        out = []
        lim = max(1, self.o.retcap // max(1, len(groups)))
        for g in groups.values():
            if len(g) <= lim:
                out += g
                continue
            self.stats['joined'] += len(g) - 1
            st, v = g[0]
            for s2, v2 in g[1:]:
                e, st = self.join(fr, {'r': v} if v is not None else {}, st, {'r': v2} if v2 is not None else {}, s2)
                v = e.get('r')
            out.append((st, v))
        return out

    def retsym(self, fr, st, i, f):
        if i.res is None:
            return None
        ct = self.p.param_ctypes(f)
        a = self.sym(fr, st, i, i.ty)
        if ct:
            self.rng[a] = self.tyrange(i.ty, ct[0])
        return a

    NORET = {'abort', 'exit', '_exit', '__assert_fail', 'longjmp', 'llvm.trap', '__stack_chk_fail'}
    NONNEG = {'strlen', 'fread', 'fwrite', 'strspn', 'strcspn', 'strftime'}

    def extern(self, fr, st, i, name, args):
        if name in self.NORET or name.startswith('Error_Panic'):
            return []
        if name.startswith('llvm.') and 'with.overflow' in name:
            op = name.split('.')[1]
            k = {'sadd': 'add', 'ssub': 'sub', 'smul': 'mul', 'uadd': 'add', 'usub': 'sub', 'umul': 'mul'}[op]
            n = i.a[0][0]
            v = self.binop(st, k, args[0], args[1], n)
            ov = ('op', 'ovf', op, args[0], args[1])
            if op[0] == 's':
                s2 = st.clone()
                r = []
                lo, hi = self.tyrange(n)
                if self.assume(st, ('tr1', ov), False):
                    r.append((st, ('tup', v, ZERO)))
                w = ('op', 'wrapped', k, args[0], args[1])
                self.rng[w] = (lo, hi)
                if self.assume(s2, ('tr1', ov), True):
                    r.append((s2, ('tup', w, ONE)))
                return r
            return [(st, ('tup', v, ('tr1', ov)))]
        for k in EXT_WRITES.get(name, ()):
            if k < len(args):
                self.havoc_at(fr, st, i, self.res(st, args[k]), None)
        if i.res is None:
            return [(st, None)]
        a = self.sym(fr, st, i, i.ty)
        if name in self.NONNEG:
            self.rng[a] = (0, 2 ** 62)
        if name in ('getc', 'fgetc', 'toupper', 'tolower'):
            self.rng[a] = (-1, 255)
        if name == 'strlen':
            return [(st, self.strlen(st, args[0], a))]
        if name == 'llvm.fmuladd.f64' and self.o.foldfp and all(x[0] == 'f' and isinstance(x[1], float) for x in args[:3]):
            return [(st, ('f', args[0][1] * args[1][1] + args[2][1]))]
        if name.startswith(('llvm.fabs', 'llvm.floor', 'llvm.ceil', 'llvm.fmuladd')) or name in MATH:
            return [(st, ('op', name) + tuple(args))]
        return [(st, a)]

    def strlen(self, st, p, a):
        if p[0] == 'g':
            s = self.p.cstr(p)
            if s is not None:
                return C(len(s))
        return a


MATH = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'log10', 'pow', 'ceil', 'floor', 'sqrt', 'fmod'}


# ---------------------------------------------------------------- library models
def alloc_result(e, fr, st, i, zeroed=False, may_fail=True):
    a = ('alloc', fr.act, i.res or ('%s.%d' % (i.blk, i.idx)), e.it(fr, st, i.blk))
    ok = st.clone() if may_fail else st
    # a new object: nothing known about it from an earlier iteration
    for b in [b for b in ok.mem if (b[1] if b[0] == 'any' else root(b)) == a]:
        del ok.mem[b]
    ok.esc = ok.esc - {a}
    ok.zero = ok.zero | {a} if zeroed else ok.zero - {a}
    out = [(ok, a)]
    if may_fail:
        out.append((st, ZERO))
    return out


def m_malloc(e, fr, st, i, args):
    return alloc_result(e, fr, st, i)


def m_calloc(e, fr, st, i, args):
    return alloc_result(e, fr, st, i, zeroed=True)


def m_realloc(e, fr, st, i, args):
    ok = st.clone()
    a = ('alloc', fr.act, i.res or ('%s.%d' % (i.blk, i.idx)), e.it(fr, st, i.blk))
    r = root(args[0])
    ok.mem[('any', a)] = (ONE, 0, None)
    if r is not None and r == args[0]:
        # contents move along
        for b in [b for b in ok.mem if b[0] != 'any' and root(b) == r]:
            x = ok.mem[b]
            if r[0] in ('loc', 'alloc'):
                ok.mem[add(sub(b, r), a)] = x
    return [(ok, a), (st, ZERO)]


def m_free(e, fr, st, i, args):
    return [(st, None)]


def m_memset(e, fr, st, i, args):
    p, v, n = e.res(st, args[0]), e.res(st, args[1]), e.res(st, args[2])
    r = root(p)
    if r is None:
        return [(st, p)]
    if r[0] in ('loc', 'alloc'):
        # what lies before the bytes that are set is as it was
        d = sub(p, r)
        keep = [(b, st.mem[b]) for b in st.mem if b[0] != 'any' and root(b) == r and isc(sub(b, r)) and sub(b, r)[1] + st.mem[b][1] <= d[1]] if isc(d) else []
        e.havoc_root(fr, st, i, r)
        st.mem.update(keep)
        if v == ZERO and p == r:
            st.zero = st.zero | {r}
            st.mem.pop(('any', r), None)
        return [(st, p)]
    if v == ZERO and isc(n) and n[1] <= 1024:
        # a structure behind a pointer is cleared
        for b in [b for b in st.mem if b[0] != 'any' and root(b) == r]:
            lo, hi = e.bounds(st, sub(b, p))
            if lo >= 0 and hi < n[1]:
                x = st.mem[b]
                st.mem[b] = (ZERO, x[1], x[2])
        cleared = e.h.cleared(e, fr, st, i, p, n[1]) if hasattr(e.h, 'cleared') else None
    else:
        e.havoc_at(fr, st, i, p, None)
    return [(st, p)]


def m_memcpy(e, fr, st, i, args):
    d, s, n = (e.res(st, a) for a in args[:3])
    rd, rs = root(d), root(s)
    if isc(n) and rd is not None and n[1] <= 4096:
        # copy what is known, forget the rest
        cells = []
        if rs is not None:
            for b, x in st.mem.items():
                if b[0] == 'any' or root(b) != rs:
                    continue
                o = sub(b, s)
                if isc(o) and 0 <= o[1] and o[1] + x[1] <= n[1]:
                    cells.append((o[1], x))
        if rs is not None and rs[0] == 'g' and len(parts(s)[1]) == 1:
            g = e.p.globals.get(rs[1])
            if g is not None and g.init is not None:
                for o, ty in leaves(e.p, g.ty, 0):
                    so = o - parts(s)[0]
                    if 0 <= so < n[1]:
                        v = e.global_value(rs[1], o, ty)
                        if v is not None:
                            cells.append((so, (v, e.p.size(ty), None)))
        for b in [b for b in st.mem if b[0] != 'any' and root(b) == rd]:
            o = sub(b, d)
            if isc(o) and 0 <= o[1] < n[1]:
                del st.mem[b]
            elif not isc(o):
                del st.mem[b]
        known = {o for o, x in cells}
        for o, x in cells:
            e.put(fr, st, i, add(d, C(o)), x[0], x[1], x[2])
        # cells not known at the source: name them after the source
        for o, ty, tag in struct_cells(e, fr, i, n[1]):
            if o in known:
                continue
            if rs is not None and rs[0] in ('loc', 'alloc') and rs not in st.zero and not e.partially(st, add(s, C(o)), rs):
                continue
            v = e.load(fr, st, i, add(s, C(o)), ty, tag)
            e.put(fr, st, i, add(d, C(o)), v, e.p.size(ty), tag)
        if rd[0] in ('loc', 'alloc') and not known and not struct_cells(e, fr, i, n[1]):
            st.mem[('any', rd)] = (ONE, 0, None)
        return [(st, d)]
    e.havoc_at(fr, st, i, d, None)
    return [(st, d)]


def leaves(p, t, off):
    if t[0] in ('int', 'ptr', 'fp'):
        yield off, t
    elif t[0] == 'arr':
        if t[1] <= 64:
            for k in range(t[1]):
                yield from leaves(p, t[2], off + k * p.size(t[2]))
    else:
        for k, f in enumerate(p.fields(t)):
            yield from leaves(p, f, off + p.offset(t, k))


def struct_cells(e, fr, i, n):
    """scalar fields of the structure a constant-size copy moves (from the
    type of the local it copies to or from)"""
    for t, v in i.a[:2]:
        if v[0] != 'l':
            continue
        d = e.eff.defs(i.fn).get(v[1])
        ty = None
        if d is not None and d.op == 'alloca':
            ty = d.x
        elif d is not None and d.op == 'gep':
            ty = gep_type(e.p, d)
        if ty is not None and ty[0] == 'struct' and e.p.size(ty) == n:
            return list(tagged_leaves(e.p, ty, 0))
    return []


def gep_type(p, d):
    t = d.x
    for ity, iv in d.a[2:]:
        if t[0] in ('arr', 'vec'):
            t = t[2]
        elif iv[0] == 'c':
            t = p.fields(t)[iv[1]]
    return t


def tagged_leaves(p, t, off, tag=None):
    if t[0] in ('int', 'ptr', 'fp'):
        yield off, t, tag
    elif t[0] == 'arr':
        return
    else:
        for k, f in enumerate(p.fields(t)):
            yield from tagged_leaves(p, f, off + p.offset(t, k), (t[1], k) if t[0] == 'struct' else tag)


MODELS = {
    'malloc': m_malloc, 'calloc': m_calloc, 'realloc': m_realloc, 'free': m_free,
    'memset': m_memset, 'memcpy': m_memcpy, 'memmove': m_memcpy,
}


def trail(p, st, limit=14):
    out = []
    t = st.trail
    while t is not None and len(out) < 400:
        prev, ins, what = t
        out.append('%s %s' % (p.where(ins), what))
        t = prev
    out.reverse()
    if len(out) > limit:
        out = out[:3] + ['... %d more ...' % (len(out) - limit)] + out[-(limit - 3):]
    return out

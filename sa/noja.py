"""What the analyses know about this code base: the error type, the allocators
and the contract of the fallible functions (each of which is itself checked)."""
from ir import *
from engine import *
from effects import Effects

# functions with an Error* parameter whose failure is not reported through it
QUIET = {
    'Object_IsTypeOf': 'false means the type does not match',
    'Object_Compare': 'false means the objects differ',
}


class World:
    def __init__(self, repo=None, asserts=False):
        self.p = load(repo, asserts)
        self.eff = Effects(self.p)
        p = self.p
        f = {n: o for n, o, ct, sz in (p.di_struct('xError') or p.di_struct('Error') or [])}
        self.err_off = f
        self.occ = f['occurred']
        o = {n: off for n, off, ct, sz in p.di_struct('Object')}
        self.type_off = o['type']
        self.flags_off = o['flags']
        self.type_fields = {n: off for n, off, ct, sz in p.di_struct('TypeObject')}
        self.occ_size = [sz for n, off, ct, sz in (p.di_struct('xError') or p.di_struct('Error')) if n == 'occurred'][0]

    # ---- signatures
    def ctypes(self, f):
        return self.p.param_ctypes(f) or []

    def err_param(self, f):
        """index of the Error* parameter"""
        ct = self.ctypes(f)[1:]
        if len(ct) != len(f.params):
            return None
        c = [k for k, t in enumerate(ct) if t == 'Error*']
        return c[-1] if c else None

    def retkind(self, f):
        ct = self.ctypes(f)
        if not ct:
            return None
        r = ct[0]
        if r.endswith('*'):
            return 'ptr'
        if r in ('_Bool', 'bool'):
            return 'bool'
        if r == 'int':
            return 'int'
        if r == 'void':
            return 'void'
        return None

    def fallible(self, f):
        return self.err_param(f) is not None and self.retkind(f) in ('ptr', 'bool', 'int') \
            and f.name not in QUIET and not f.name.startswith(('_Error', 'Error_'))


class NojaHooks(Hooks):
    """contracts: an error is reported exactly when a fallible function fails"""

    def __init__(self, w):
        self.w = w
        self.boundary = None      # names; None: every fallible function

    def tracked(self, addr):
        return addr in self.trk

    trk = frozenset()

    def errcell(self, err):
        return add(err, C(self.w.occ))

    def set_error(self, e, fr, st, ins, err, v=ONE):
        a = self.errcell(e.res(st, err))
        self.trk = self.trk | {a}
        st.mem[a] = (v, self.w.occ_size, ('struct.Error', 0))

    def contract(self, e, fr, st, ins, f, args):
        n = f.name
        w = self.w
        if n in ('_Error_Report', '_Error_Report2'):
            self.reported(e, fr, st, ins, args)
            self.set_error(e, fr, st, ins, args[0])
            return [(st, None)]
        if n == 'Error_Init' or n == 'Error_Init2' or n == 'Error_Free':
            self.forgot(e, fr, st, ins, args)
            self.set_error(e, fr, st, ins, args[0], ZERO)
            return [(st, None)]
        if n == 'Heap_Malloc':
            return self.heap_malloc(e, fr, st, ins, args)
        if n == 'Heap_RawMalloc':
            bad = st.clone()
            self.set_error(e, fr, bad, ins, args[2])
            return alloc_result(e, fr, st, ins, may_fail=False) + [(bad, ZERO)]
        if n == 'BPAlloc_Malloc':
            return alloc_result(e, fr, st, ins)
        if self.is_boundary(e, fr, f):
            return self.fallible(e, fr, st, ins, f, args)
        return None

    def is_boundary(self, e, fr, f):
        return (self.boundary is None or f.name in self.boundary) and self.w.fallible(f)

    def reported(self, e, fr, st, ins, args):
        pass

    def forgot(self, e, fr, st, ins, args):
        pass

    def heap_malloc(self, e, fr, st, ins, args):
        bad = st.clone()
        self.set_error(e, fr, bad, ins, args[2])
        r = alloc_result(e, fr, st, ins, may_fail=False)
        s, a = r[0]
        s.mem[add(a, C(self.w.type_off))] = (e.res(s, args[1]), 8, ('struct.Object', 0))
        s.mem[add(a, C(self.w.flags_off))] = (ZERO, 4, ('struct.Object', 1))
        return r + [(bad, ZERO)]

    def fallible(self, e, fr, st, ins, f, args):
        w = self.w
        k = w.err_param(f)
        e.havoc_call(fr, st, ins, [f.gid], [a if j != k else ZERO for j, a in enumerate(args)])
        bad = st.clone()
        if args[k] != ZERO:
            self.set_error(e, fr, bad, ins, args[k])
        kind = w.retkind(f)
        v = e.retsym(fr, st, ins, f)
        out = []
        if kind == 'bool':
            return [(st, ONE), (bad, ZERO)]
        if kind == 'ptr':
            if v is None:
                return [(st, None), (bad, None)]
            e.assume(st, ('ne', v), True)
            return [(st, v), (bad, ZERO)]
        if v is None:
            return [(st, None), (bad, None)]
        e._assume_le(st, scale(v, -1))
        return [(st, v), (bad, C(-1))]

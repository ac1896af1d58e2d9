"""The instruction table and the layout of instructions' operands."""
from unroll import *


class Row:
    __slots__ = ('name', 'opcode', 'types')


class InstrTable:
    def __init__(self, w):
        p = w.p
        vals, groups = p.enums()

        def names(g):
            x = groups.get(g)
            if not x:
                raise Broken('enumeration %s not found' % g)
            return {vals[n]: n for n in x} if not isinstance(x, dict) else {v: n for n, v in x.items()}
        self.opcodes = names('Opcode')
        self.optypes = names('OperandType')
        self.code = {n: v for v, n in self.opcodes.items()}
        self.otype = {n: v for v, n in self.optypes.items()}
        d = p.di_struct('Operand')
        if not d:
            raise Broken('struct Operand not found')
        self.op_type = [o for n, o, ct, sz in d if n == 'type'][0]
        self.op_val = [o for n, o, ct, sz in d if not n][0]
        self.op_size = p.size(('struct', 'struct.Operand'))
        e = Engine(p, w.eff)
        g = [(k, x) for k, x in p.globals.items() if x.init is not None and x.ty[0] == 'arr' and
             x.ty[2] == ('struct', 'struct.InstrInfo')]
        if len(g) != 1:
            raise Broken('the instruction table was not found')
        self.gid, x = g[0]
        m = {n: (o, sz) for n, o, ct, sz in p.di_struct('InstrInfo')}
        sz = p.size(x.ty[2])
        self.rows = []
        for k in range(x.ty[1]):
            at = lambda f, ty: e.const_at(x.ty, x.init, k * sz + m[f][0], ty)
            r = Row()
            n = at('name', PTR)
            r.name = p.cstr(n) if n is not None and n[0] == 'g' else None
            r.opcode = at('opcode', I32)[1]
            c = at('opcount', I32)[1]
            t = at('optypes', PTR)
            r.types = []
            for j in range(c):
                v = e.global_value(t[1], 4 * j, I32) if t is not None and t[0] == 'g' else None
                r.types.append(self.optypes.get(v[1]) if v is not None and isc(v) else None)
            self.rows.append(r)
        self.by = {}
        for r in self.rows:
            self.by.setdefault(r.opcode, r)

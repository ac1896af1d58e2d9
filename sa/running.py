"""R04-R06: running sources, what a source holds, stack traces."""
from frames import *

RUN = [
    # function, arguments, where the source comes from, what makes code of it
    ('runSource', ['runtime', 'source', 'rets', 'error'], None, 'compile'),
    ('runBytecodeSource', ['runtime', 'source', 'rets', 'error'], None, 'assemble'),
    ('runFileEx', ['runtime', 'file', 'rets', 'error'], 'Source_FromFile', 'compile'),
    ('runBytecodeFileEx', ['runtime', 'file', 'rets', 'error'], 'Source_FromFile', 'assemble'),
    ('runStringEx', ['runtime', 'name', 'string', 'rets', 'error'], 'Source_FromString', 'compile'),
    ('runBytecodeStringEx', ['runtime', 'name', 'string', 'rets', 'error'], 'Source_FromString', 'assemble'),
    ('runFile', ['runtime', 'file', 'error'], 'Source_FromFile', 'compile'),
    ('runBytecodeFile', ['runtime', 'file', 'error'], 'Source_FromFile', 'assemble'),
    ('runString', ['runtime', 'string', 'error'], 'Source_FromString', 'compile'),
    ('runBytecodeString', ['runtime', 'string', 'error'], 'Source_FromString', 'assemble'),
    ('Runtime_plugBuiltinsFromSource', ['runtime', 'source', 'error'], None, 'compile'),
    ('Runtime_plugBuiltinsFromFile', ['runtime', 'file', 'error'], 'Source_FromFile', 'compile'),
    ('Runtime_plugBuiltinsFromString', ['runtime', 'string', 'error'], 'Source_FromString', 'compile'),
]


def running(w, ob, res):
    s = F(w, ob, res, 'running')
    for fn, args, src, comp in RUN:
        def pre(m, st):
            m.e.rng[rt(m, 'runtime', 'xRuntime', 'builtins')] = (0, 2 ** 63 - 1)
        plug = 'plug' in fn

        class H(RunHooks):
            most = 0
            usage = (0, 2)
        m = s.follow(s.fn(fn), args, pre=pre, hooks=H, record=LEAVE + ('Runtime_plugBuiltins',), turns=12)
        got = set()
        for p in m.paths:
            so = p.calls(src) if src else []
            sv = so[0][3] if so else m['source'] if not src else None
            co = p.calls('compile') + p.calls('assemble')
            ok = not (p.failed or p.reports)
            zero = p.ret == ZERO if w.retkind(m.f) == 'bool' else p.true(('le', add(p.ret, ONE))) is True
            if src and len(so) != 1:
                s.bad(m, p, 'source', 'the source is not made once')
                continue
            if src:
                text = so[0][2][0 if src == 'Source_FromFile' else 1]
                if p.differ(text, m['file' if src == 'Source_FromFile' else 'string']):
                    s.bad(m, p, 'text', 'what is run is not what was given')
                if src == 'Source_FromString':
                    n = so[0][2][2]
                    if isc(n) and n[1] >= 0:
                        s.bad(m, p, 'text', 'not all of the text is run')
                    if 'name' in m.a and p.differ(so[0][2][0], m['name']):
                        s.bad(m, p, 'name', 'the source has another name than the one given')
                fr_ = [x for x in p.calls('Source_Free') if p.same(x[2][0], sv)]
                if sv != ZERO and len(fr_) != 1:
                    s.bad(m, p, 'release', 'the source is not released exactly once')
                if sv != ZERO and fr_ and any(p.ev.index(x) > p.ev.index(fr_[0]) for x in co + p.calls('Runtime_PushFailedFrame')):
                    s.bad(m, p, 'early', 'the source is released before it was used')
                if sv == ZERO:
                    got.add('none')
                    if co or not zero:
                        s.bad(m, p, 'none', 'a source that could not be made is run')
                    continue
            elif p.calls('Source_Free'):
                s.bad(m, p, 'release', 'a source that belongs to the caller is released')
            if len(co) != 1 or co[0][1] != comp or p.differ(co[0][2][0], sv):
                s.bad(m, p, 'compile', 'the source is not %s once' % ('compiled' if comp == 'compile' else 'assembled'))
                continue
            if p.differ(co[0][2][1], m['error']):
                s.bad(m, p, 'error', 'errors of the source are reported elsewhere')
            exe = co[0][3]
            ff = p.calls('Runtime_PushFailedFrame')
            ef = p.calls('Executable_Free')
            if exe == ZERO:
                got.add('invalid')
                off = p.kind('offset')[0][1]
                if not zero:
                    s.bad(m, p, 'invalid', 'a source that is not valid is taken for one that was run')
                if len(ff) != 1 or p.differ(ff[0][2][2], sv) or p.differ(ff[0][2][3], off):
                    s.bad(m, p, 'position', 'the position of the error in the source is not kept for the stack trace')
                elif p.same(ff[0][2][1], m['error']):
                    s.bad(m, p, 'over', 'failing to keep the position of an error replaces the error')
                late = [x for x in p.ev[p.ev.index(co[0]):] if x[0] in ('store', 'copy', 'fill', 'report', 'cleared') and root(x[1]) == m['error']]
                if late:
                    s.bad(m, p, 'over', 'the error of the source is replaced by another')
                if ef:
                    s.bad(m, p, 'code', 'code that was not made is released')
                continue
            if ff:
                s.bad(m, p, 'failed', 'a valid source is reported as one that is not')
            if not p.calls('Runtime_plugBuiltins'):
                check_frame(s, m, p, fn)
            ent = p.calls('Runtime_PushFrame')
            for x in ent:
                if p.differ(x[2][3], exe) or p.differ(x[2][4], ZERO) or p.differ(x[2][2], ZERO) or p.differ(x[2][0], m['runtime']):
                    s.bad(m, p, 'enter', 'the code of a source is not run from its first instruction, without a closure')
            if not ent:
                s.bad(m, p, 'run', 'the code of a source is not run')
            if p.calls('Runtime_Push'):
                s.bad(m, p, 'args', 'the code of a source gets arguments')
            mine = [x for x in ef if p.same(x[2][0], exe)]
            if len(mine) != 1 or len(ef) != 1:
                s.bad(m, p, 'code', 'the code of a source is not released exactly once')
            elif any(p.ev.index(x) > p.ev.index(mine[0]) for x in p.ev if x[0] == 'call' and x[1] in ('Runtime_PushFrame', 'runInstruction')):
                s.bad(m, p, 'code', 'the code of a source is released before it was run')
            if not ok:
                got.add('fails')
                if not zero:
                    s.bad(m, p, 'fails', 'a source that failed is taken for one that was run')
                continue
            got.add('ran')
            if zero and not plug:
                s.bad(m, p, 'ran', 'a source that was run is taken for one that failed')
            if 'rets' in m.a:
                result(s, m, p, m['rets'])
            if plug:
                pb = p.calls('Runtime_plugBuiltins')
                n = p.calls('Runtime_GetFrameStackUsage')[-1][3]
                none = p.true(('eq', n))
                if none is True:
                    if pb or zero:
                        s.bad(m, p, 'plug', 'builtins that give no value change what there is, or are taken for failed')
                elif none is False:
                    tops = [x for x in p.calls('Runtime_Top')]
                    lo, hi = p.e.bounds(p.st, n)
                    if len(pb) != 1:
                        s.bad(m, p, 'plug', 'the builtins given by a source are not added once')
                    elif lo == hi:
                        first = [x for x in tops if p.same(x[2][1], C(1 - hi))]
                        if not first or p.differ(pb[0][2][1], first[0][3]):
                            s.bad(m, p, 'plug', 'the builtins added are not the first value of the source')
        s.needs(m, ('ran', 'invalid', 'fails') + (('none',) if src else ()), got)


# ------------------------------------------------------------- what a source holds

class SourceHooks(ObjHooks):
    def on_call(self, e, fr, st, ins, f, args):
        n = f if isinstance(f, str) else f.name if f is not None else None
        R = tuple(e.res(st, a) for a in args)
        if n == 'fopen':
            bad = st.clone()
            v = self.tok(e, st, n)
            self.note(st, 'call', n, R, v)
            self.note(bad, 'call', n, R, ZERO)
            return [(st, v), (bad, ZERO)]
        if n in ('fread', 'ftell', 'fseek'):
            v = self.tok(e, st, n, 'i', *((0, 2 ** 31 - 1) if n == 'fread' else (-1, 2 ** 31 - 1)))
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n == 'strlen':
            v = ('s', 0, 'length of %d' % okey(R[0]), (), '', 'i')
            e.rng[v] = (0, 2 ** 30)
            self.note(st, 'call', n, R, v)
            return [(st, v)]
        if n in ('strcpy', 'strncpy'):
            self.note(st, 'call', n, R, R[0])
            return [(st, R[0])]
        if n == 'Path_MakeAbsolute':
            bad = st.clone()
            v = self.tok(e, st, n)
            self.note(st, 'call', n, R, v)
            self.note(bad, 'call', n, R, ZERO)
            return [(st, v), (bad, ZERO)]
        if n == '__errno_location':
            return [(st, e.sym(fr, st, ins, ins.ty))]
        return super().on_call(e, fr, st, ins, f, args)


def sources(w, ob, res):
    s = F(w, ob, res, 'sources')
    M = {n: (o, z) for n, o, ct, z in ob.members('struct.xSource')}
    for fn, args in (('Source_FromFile', ['file', 'error']), ('Source_FromString', ['name:q', 'body', 'size:i', 'error'])):
        m = s.follow(s.fn(fn), args, hooks=SourceHooks)
        got = set()
        for p in m.paths:
            fo_ = [x for x in p.calls('fopen') if x[3] != ZERO]
            cl = [x for x in p.ev if x[0] == 'ext' and x[1] == 'fclose']
            if len(cl) != len(fo_) or any(p.differ(x[2][0], fo_[0][3]) for x in cl):
                s.bad(m, p, 'close', 'the file of a source is not closed exactly once')
            al = [x for x in p.kind('alloc') if x[3] != ZERO]
            if p.ret == ZERO:
                got.add('fails')
                if not p.reports:
                    s.bad(m, p, 'silent', 'a source is not made, without an error')
                for x in al:
                    if len(freed(p, x[3])) != 1:
                        s.bad(m, p, 'leak', 'the memory of a source that is not made is not freed once')
                continue
            got.add('made')
            if p.reports:
                s.bad(m, p, 'error', 'a source is made though an error was reported')
            if len(al) != 1 or p.differ(p.ret, al[0][3]):
                continue
            if freed(p, p.ret):
                s.bad(m, p, 'freed', 'a source is freed before it is given')
            val = {n: p.cell(add(p.ret, C(o))) for n, (o, z) in M.items()}
            if any(x is None for x in val.values()):
                s.bad(m, p, 'init', 'a part of a new source is not set')
                continue
            if any(x is False for x in val.values()):
                continue
            if p.differ(val['refs'], ONE):
                s.bad(m, p, 'refs', 'a new source has not one user')
            if p.differ(val['is_file'], ONE if fn == 'Source_FromFile' else ZERO):
                s.bad(m, p, 'file', 'a source is taken for a file exactly if it is none')
            body, size = val['body'], val['size']
            room = sub(add(p.ret, al[0][2]), add(body, add(size, ONE)))
            if lost(room) is False and p.may(('le', add(room, ONE))):
                s.bad(m, p, 'room', 'there is no room for the text of a source and its end')
            end = p.cell(add(body, size))
            if end is None or end and p.differ(end, ZERO):
                s.bad(m, p, 'end', 'the text of a source has no end')
            if fn == 'Source_FromFile':
                rd = p.calls('fread')
                if len(rd) != 1 or p.differ(rd[0][2][0], body):
                    s.bad(m, p, 'text', 'the text of a source is not read from its file')
                else:
                    n = rd[0][2]
                    want = [sub(size, x) for x in n[1:3] if p.true(('eq', sub(ONE, [y for y in n[1:3] if y is not x][0]))) is True or True]
                    if not any(p.same(a, size) and p.same(b, ONE) for a, b in ((n[1], n[2]), (n[2], n[1]))) and p.differ(n[1], size) and p.differ(n[2], size):
                        s.bad(m, p, 'size', 'not all of a file is read')
                    whole = rd[0][3]
                    if p.same(n[1], ONE) and p.case(('le', sub(add(whole, ONE), size))):
                        s.bad(m, p, 'short', 'a file that was not read completely is taken for one that was')
                tell = p.calls('ftell')
                if tell and p.differ(size, tell[-1][3]):
                    s.bad(m, p, 'size', 'the size of a source is not that of its file')
                nm = [x for x in p.calls() if x[1] in ('strcpy', 'strncpy') and p.same(x[2][0], val['name'])]
                ab = p.calls('Path_MakeAbsolute')
                if nm and ab and p.differ(nm[0][2][1], ab[0][3]):
                    s.bad(m, p, 'name', 'the name of a source that is a file is not its absolute path')
                op = fo_[0]
                if ab and p.differ(op[2][0], ab[0][3]) and p.differ(op[2][0], m['file']):
                    s.bad(m, p, 'open', 'another file is opened')
            else:
                cp = [x for x in p.calls() if x[1] in ('strcpy', 'strncpy') and p.same(x[2][1], m['body'])] + [x for x in p.kind('copy') if p.same(x[2], m['body'])]
                for x in cp:
                    a = x[2] if x[0] == 'call' else x[1:]
                    if p.differ(a[0], body):
                        s.bad(m, p, 'text', 'the text of a source is not where it should be')
                    if len(a) > 2 and p.differ(a[2], size) and p.differ(a[2], add(size, ONE)):
                        s.bad(m, p, 'text', 'not all of the text of a source is kept')
                if not cp:
                    res.note('%s: how the text is copied is not understood' % fn)
                given = p.true(('le', sub(ZERO, m['size'])))
                ln = [x[3] for x in p.calls('strlen') if p.same(x[2][0], m['body'])]
                if given is None and ln and p.same(size, ln[0]) and p.case(('le', sub(ZERO, m['size']))):
                    s.bad(m, p, 'size', 'the size of a source is not the one given')
                if given is True and p.differ(size, m['size']):
                    s.bad(m, p, 'size', 'the size of a source is not the one given')
                if given is False and (not ln or p.differ(size, ln[0])):
                    s.bad(m, p, 'size', 'the size of a source is not the length of its text')
                null = p.true(('eq', m['name']))
                if null is True and p.differ(val['name'], ZERO):
                    s.bad(m, p, 'name', 'a source without a name has one')
                if null is False:
                    nm = [x for x in p.calls() if x[1] in ('strcpy', 'strncpy') and p.same(x[2][1], m['name'])]
                    if p.true(('eq', val['name'])) is True or nm and p.differ(nm[0][2][0], val['name']):
                        s.bad(m, p, 'name', 'the name of a source is lost')
        s.needs(m, ('made', 'fails'), got)
    for fn, n in (('Source_GetName', 'name'), ('Source_GetBody', 'body'), ('Source_GetSize', 'size'), ('Source_GetAbsolutePath', 'name')):
        m = s.follow(s.fn(fn), ['source'])
        for p in m.paths:
            res.count('outcomes')
            if fn == 'Source_GetAbsolutePath':
                isf = rt(m, 'source', 'xSource', 'is_file')
                if p.case(('eq', sub(isf, ONE if p.ret == ZERO else ZERO))):
                    s.bad(m, p, 'path', 'a source that is not a file has a path, or one that is has none')
                if p.ret == ZERO:
                    continue
            if p.differ(p.ret, rt(m, 'source', 'xSource', n)):
                s.bad(m, p, 'get', 'the %s of a source is another' % n)
    counted(w, ob, res, s)


SHARED = [('Source', 'xSource', 'Source_Copy', 'Source_Free'), ('Executable', 'xExecutable', 'Executable_Copy', 'Executable_Free'), ('Stack', 'xStack', 'Stack_Copy', 'Stack_Free')]


def counted(w, ob, res, s):
    """things with several users live until the last of them releases them"""
    for what, struct, cp, fr_ in SHARED:
        def pre(m, st):
            m.refs = rt(m, 'x', struct, 'refs')
            m.e.rng[m.refs] = (1, 2 ** 31 - 2)
        m = s.follow(s.fn(cp), ['x'], pre=pre)
        for p in m.paths:
            res.count('outcomes')
            if p.differ(p.ret, m['x']):
                s.bad(m, p, 'copy', 'another user gets something else')
            moved_to(s, m, p, 'refs', m.refs, add(m.refs, ONE), 'a further user is not counted')
        m = s.follow(s.fn(fr_), ['x'], pre=pre, record=[x[3] for x in SHARED if x[3] != fr_])
        got = set()
        for p in m.paths:
            gone = freed(p, m['x'])
            last = p.true(('eq', sub(m.refs, ONE)))
            got.add('last' if gone else 'not last')
            if len(gone) > 1:
                s.bad(m, p, 'twice', 'memory is freed twice')
            if gone and last is not True and p.may(('le', sub(C(2), m.refs))):
                s.bad(m, p, 'used', 'memory is freed while it is used')
            if not gone and p.case(('eq', sub(m.refs, ONE))):
                s.bad(m, p, 'leak', 'memory is not freed when its last user releases it')
            if not gone:
                moved_to(s, m, p, 'refs', m.refs, sub(m.refs, ONE), 'a user that is gone is still counted')
            if what == 'Executable':
                src = rt(m, 'x', struct, 'src')
                rel = p.calls('Source_Free')
                if gone and p.true(('eq', src)) is not True and (len(rel) != 1 or p.differ(rel[0][2][0], src)):
                    s.bad(m, p, 'source', 'the source of code that is freed is not released once')
                if not gone and rel:
                    s.bad(m, p, 'source', 'the source of code that is still used is released')
        s.needs(m, ('last', 'not last'), got)
    for what, struct, fn, args, rec in (('Stack', 'xStack', 'Stack_New', ['size:i'], ()), ('Executable', 'xExecutable', 'ExeBuilder_Finalize', ['x', 'error'], ('BucketList_Size', 'BucketList_Copy'))):
        m = s.follow(s.fn(fn), args, record=rec, hooks=SourceHooks)
        got = set()
        for p in m.paths:
            if p.ret == ZERO:
                continue
            al = [x for x in p.kind('alloc') if p.same(x[3], p.ret)]
            if len(al) != 1:
                continue
            got.add('made')
            n = p.cell(add(p.ret, C(s.member(struct, 'refs')[0])))
            if n is None or n and p.differ(n, ONE):
                s.bad(m, p, 'refs', 'something new has not one user')
            if what == 'Executable':
                n = p.cell(add(p.ret, C(s.member(struct, 'src')[0])))
                if n is None or n and p.differ(n, ZERO):
                    s.bad(m, p, 'source', 'new code has a source no one gave it')
        s.needs(m, ('made',), got)
    m = s.follow(s.fn('Executable_SetSource'), ['x', 'source'], record=('Source_Copy', 'Source_Free'))
    for p in m.paths:
        cpd = p.calls('Source_Copy')
        if p.ret != ZERO and (len(cpd) != 1 or p.differ(cpd[0][2][0], m['source']) or p.differ(p.at(rt(m, 'x', 'xExecutable', 'src')[1], 8, 'p'), cpd[0][3])):
            s.bad(m, p, 'hold', 'code does not hold the source it comes from')


def running_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    running(w, ob, res)
    res.need('operations', 8)
    res.need('outcomes', 25)
    return res


def sources_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    sources(w, ob, res)
    res.need('operations', 7)
    res.need('outcomes', 8)
    return res

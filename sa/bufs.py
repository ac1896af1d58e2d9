"""D03, D04: buffers and strings."""
from objs import *

IMAX = 2 ** 31 - 1


def bufs(w, ob, res):
    s = Spec(w, ob, res, 't_buffer')
    off = {n: o for n, o, ct, z in w.p.di_struct('Payload')}
    for n in ('refs', 'size', 'body'):
        if n not in off:
            raise Broken('Payload has no member ' + n)

    def inv(m, st):
        """a buffer is a window of its block"""
        for x in ('offset', 'length'):
            f = m.field(x)
            m.e.assume(st, ('le', scale(f, -1)), True)
            m.e.assume(st, ('le', add(f, C(-IMAX))), True)
        size = ('m', add(m.field('payload'), C(off['size'])), 0, 8, 'i')
        m.e.assume(st, ('le', add(size, C(-IMAX))), True)
        m.e.assume(st, ('le', sub(add(m.field('offset'), m.field('length')), size)), True)

    def body(m, k=ZERO):
        return add(add(add(m.field('payload'), C(off['body'])), m.field('offset')), k)

    # select
    m = s.follow('select', ['self', 'key', 'heap', 'error'], pre=inv)
    got = set()
    if m:
        idx, n = key_int(m), m.field('length')
        index_rule(s, m, idx, n, False, 'a buffer', None)
        for p in m.paths:
            c = p.calls('Object_FromInt')
            if p.ret == ZERO:
                if not p.failed and c:
                    s.bad(m, p, 'fails', 'reading a byte fails though nothing failed')
                got.add('refuses')
                continue
            got.add('selects')
            if len(c) != 1 or c[0][3] != p.ret:
                s.res.note('%s: what it returns is not made by Object_FromInt: not decided' % m.f.name)
                continue
            v = c[0][2][0]
            b = byte_read(v)
            if b is None:
                s.res.note('%s: the value read is not a byte of memory: not decided' % m.f.name)
            elif p.differ(b[0], body(m, idx)):
                s.bad(m, p, 'byte', 'what is read is not the byte at the index of the window')
            elif b[1] is not True and p.may(lt(v, ZERO)):
                s.bad(m, p, 'sign', 'bytes over 127 are read as negative numbers')
        s.needs(m, ('selects', 'refuses'), got)
    # insert
    m = s.follow('insert', ['self', 'key', 'val', 'heap', 'error'], pre=inv)
    got = set()
    if m:
        idx, n, val = key_int(m), m.field('length'), key_int(m, 'val')
        fits = lambda p: is_type(m, p, m['val'], 't_int') is True and p.case(('le', scale(val, -1)), ('le', add(val, C(-255)))) is not None \
            and p.may(lt(val, ZERO)) is False and p.may(lt(C(255), val)) is False
        index_rule(s, m, idx, n, False, 'a buffer', fits)
        for p in m.paths:
            w_ = [x for x in p.ev if x[0] == 'store']
            if p.ret == ZERO:
                got.add('refuses')
                if w_:
                    s.bad(m, p, 'fails', 'a store into a buffer that fails changes something')
                if is_type(m, p, m['val'], 't_int') is True and is_type(m, p, m['key'], 't_int') is True and not p.failed:
                    if p.may(('le', scale(val, -1)), ('le', add(val, C(-255))), ('le', scale(idx, -1)), lt(idx, n)):
                        s.bad(m, p, 'refused', 'a byte is refused')
                continue
            got.add('stores')
            if is_type(m, p, m['val'], 't_int') is False:
                s.bad(m, p, 'val', 'a value that is not an integer is accepted')
                continue
            if p.may(lt(val, ZERO)) or p.may(lt(C(255), val)):
                s.bad(m, p, 'range', 'a value that is not a byte is accepted')
            ok = [x for x in w_ if p.same(x[1], body(m, idx))]
            if not ok:
                if not any(lost(x[1]) for x in w_):
                    s.bad(m, p, 'byte', 'the byte is not stored at the index of the window')
                continue
            if ok[-1][3] != 1:
                s.bad(m, p, 'width', 'more than one byte is stored')
            elif p.differ(strip(ok[-1][2]), val) or not_byte(ok[-1][2], val):
                s.bad(m, p, 'value', 'the byte stored is not the value')
            if len(w_) != len(ok):
                s.bad(m, p, 'other', 'a store into a buffer changes something else')
        s.needs(m, ('stores', 'refuses'), got)
    counts(s, 'length', inv)
    keysof_range(s, 'length', inv)
    # print
    m = s.follow('print', ['self', 'fp'], pre=inv, loads=1)
    got = set()
    for p in m.paths if m else ():
        n = known_count(p, m.field('length'), 4)
        if n is None or n < 0:
            continue
        rd = [x for x in p.ev if x[0] == 'load']
        t = printed(p)
        if t is None or any(x[0] != 'fmt' for x in t):
            continue
        got.add('prints')
        f = ''.join(x[1] for x in t)
        a = [y for x in t for y in x[2]]
        per = f[1:-1].split(', ') if len(f) > 2 else []
        if f[:1] != '[' or f[-1:] != ']' or len(per) != n:
            s.bad(m, p, 'text', 'a buffer of %d bytes is not printed as that many bytes between brackets' % n)
            continue
        for k, x in enumerate(rd[:n]):
            if p.differ(x[1], body(m, C(k))):
                s.bad(m, p, 'bytes', 'the bytes printed are not those of the window')
        if n == 1 and len(a) == per[0].count('%'):
            for k in range(n):
                digits(s, m, p, per[0], a, [('m', body(m, C(k)), 0, 1, 'i')] + [x[2] for x in rd if x[1] == body(m, C(k))])
    if m:
        s.needs(m, ('prints',), got)
    # a new buffer
    m = s.follow(s.fn('Object_NewBuffer'), ['size:u', 'heap', 'error'])
    got = set()
    for p in m.paths:
        al = [x for x in p.kind('alloc') if x[1] in ('malloc', 'calloc')]
        if p.ret == ZERO:
            if not p.reports and not p.failed and not any(x[3] == ZERO for x in al):
                s.bad(m, p, 'fails', 'a buffer is refused without a reason')
            if not al and p.may(('le', add(m['size'], C(-IMAX + 64)))):
                s.bad(m, p, 'refused', 'the size of a buffer is refused though it is small enough')
            continue
        got.add('makes')
        if p.may(lt(C(IMAX), m['size'])):
            s.bad(m, p, 'size', 'a buffer is accepted that is larger than its indices can be')
        v = {x: p.at(add(p.ret, C(fo(m, x))), 8, 'p' if x == 'payload' else 'i') for x in ('payload', 'offset', 'length')}
        if p.differ(v['offset'], ZERO) or p.differ(v['length'], m['size']):
            s.bad(m, p, 'window', 'a new buffer does not start at its first byte or has another length than asked for')
        b = [x for x in al if x[3] == v['payload']]
        if not b:
            s.res.note('%s: the block of the buffer is not allocated by malloc: not decided' % m.f.name)
            continue
        if p.may(lt(b[0][2], add(m['size'], C(off['body'])))):
            s.bad(m, p, 'room', 'the block of a new buffer is too small')
        if b[0][1] == 'malloc':
            fl = [x for x in p.kind('fill') if p.same(x[1], add(v['payload'], C(off['body'])))]
            if not any(x[2] == ZERO and not p.differ(x[3], m['size']) for x in fl):
                s.bad(m, p, 'zero', 'the bytes of a new buffer are not zero')
        if p.differ(p.at(add(v['payload'], C(off['refs'])), 8), ONE):
            s.bad(m, p, 'refs', 'the block of a new buffer is not counted as used by it')
    s.needs(m, ('makes',), got)
    # slices
    m = s.follow(s.fn('Object_SliceBuffer'), ['self', 'offset:l', 'length:l', 'heap', 'error'], pre=inv)
    got = set()
    for p in m.paths:
        o, z = m['offset'], m['length']
        n = m.field('length')
        # as the unsigned numbers they are
        if p.ret == ZERO:
            got.add('refuses')
            if not p.failed and is_type(m, p, m['self'], 't_buffer') is True:
                if p.may(('le', scale(o, -1)), ('le', scale(z, -1)), lt(o, n), ('le', sub(add(o, z), n))):
                    s.bad(m, p, 'refused', 'a slice inside of the buffer is refused')
            continue
        got.add('slices')
        if p.ret != m['self']:
            for c, what in (((lt(o, ZERO),), 'starts before'), ((('le', scale(o, -1)), lt(z, ZERO)), 'has a negative length in'),
                            ((('le', scale(o, -1)), ('le', scale(z, -1)), lt(n, add(o, z))), 'ends after')):
                if p.may(*c):
                    s.bad(m, p, 'range', 'a slice is accepted that %s the buffer' % what)
        v = {x: p.at(add(p.ret, C(fo(m, x))), 8, 'p' if x == 'payload' else 'i') for x in ('payload', 'offset', 'length')}
        if p.differ(v['payload'], m.field('payload')):
            s.bad(m, p, 'shared', 'a slice does not share the bytes of the buffer')
            continue
        if p.differ(v['offset'], add(m.field('offset'), o)):
            s.bad(m, p, 'offset', 'a slice does not start at its offset in the window it is taken from')
        if p.differ(v['length'], z):
            s.bad(m, p, 'length', 'a slice does not have the length asked for')
        ra = add(m.field('payload'), C(off['refs']))
        if p.differ(p.at(ra, 8), add(('m', ra, 0, 8, 'i'), ONE)):
            s.bad(m, p, 'refs', 'a slice is not counted as a user of the block it shares')
    s.needs(m, ('slices', 'refuses'), got)
    # the bytes
    m = s.follow(s.fn('Object_GetBuffer'), ['self', 'size'], pre=inv)
    got = set()
    for p in m.paths:
        if p.ret is None or p.ret == ZERO:
            continue
        got.add('gets')
        if p.differ(p.ret, body(m)):
            s.bad(m, p, 'bytes', 'what is given out is not the start of the window')
        if p.true(('ne', m['size'])) is True and p.differ(p.at(m['size'], 8), m.field('length')):
            s.bad(m, p, 'size', 'the size given out is not that of the window')
    s.needs(m, ('gets',), got)
    # the end of a buffer
    m = s.follow('free', ['self', 'error'], pre=inv)
    got = set()
    for p in m.paths if m else ():
        ra = add(m.field('payload'), C(off['refs']))
        r0 = ('m', ra, 0, 8, 'i')
        fr = [x for x in p.kind('ext') if x[1] == 'free']
        last = p.may(('eq', add(r0, C(-1))))
        other = p.may(lt(ONE, r0))
        if fr:
            got.add('frees')
            if p.differ(fr[0][2][0], m.field('payload')):
                s.bad(m, p, 'block', 'something else than the block of the buffer is freed')
            elif other:
                s.bad(m, p, 'shared', 'the block of a buffer is freed while another one uses it')
            if len(fr) > 1:
                s.bad(m, p, 'twice', 'the block of a buffer is freed twice')
        else:
            got.add('keeps')
            if last:
                s.bad(m, p, 'leak', 'the block of a buffer is not freed with its last user')
            if p.differ(p.at(ra, 8), add(r0, C(-1))):
                s.bad(m, p, 'refs', 'a buffer that ends is still counted as a user of its block')
    if m:
        s.needs(m, ('frees', 'keeps'), got)
    # from text
    m = s.follow(s.fn('Object_NewBufferFromString'), ['str', 'len:u', 'heap', 'error'])
    got = set()
    for p in m.paths:
        if p.ret == ZERO:
            continue
        got.add('makes')
        mk_ = [x for x in p.calls('Object_NewBuffer') if x[3] == p.ret]
        if not mk_:
            continue
        if p.differ(mk_[0][2][0], m['len']):
            s.bad(m, p, 'size', 'the buffer of a text has another size')
        c = [x for x in p.kind('copy') if p.same(x[2], m['str'])]
        if not c or p.differ(c[0][3], m['len']):
            s.bad(m, p, 'bytes', 'the bytes of the text are not all copied')
        else:
            want = add(add(('m', add(p.ret, C(fo(m, 'payload'))), 0, 8, 'p'), C(off['body'])), ('m', add(p.ret, C(fo(m, 'offset'))), 0, 8, 'i'))
            if p.differ(c[0][1], want):
                s.bad(m, p, 'bytes', 'the bytes of the text are not copied to the start of the buffer')
    s.needs(m, ('makes',), got)


def byte_read(v):
    """(address, unsigned) if a value is a byte of memory"""
    ext = None
    while v[0] == 'op' and v[1] in ('zext', 'sext', 'trunc') or v[0] == 'op' and v[1] == 'and' and C(255) in v[2:]:
        if v[1] == 'and':
            ext = True if ext is None else ext
            v = [x for x in v[2:] if x != C(255)][0]
            continue
        if v[1] != 'trunc' and ext is None:
            ext = v[1] == 'zext'
        v = v[3]
    if v[0] == 'm' and v[3] == 1:
        return v[1], ext
    return None


def not_byte(t, val):
    """is another byte than the value stored"""
    for b in range(256):
        v = evaluate(t, {val: b})
        if v is not None and v & 255 != b:
            return True
    return False


def digits(s, m, p, fmt, args, byte):
    """what is printed are the two hexadecimal digits of a byte"""
    for b in range(256):
        env = {x: b if b <= p.e.b1(p.st, x)[1] else b - 256 for x in byte}
        q = p.case(*[('eq', add(x, C(-env[x]))) for x in byte[:1]])
        if q is None or not holds(q, env):
            continue
        v = [evaluate(x, env) for x in args]
        s.res.count('digits')
        if None in v:
            s.res.note('%s: the digits printed are not comparable: not decided' % m.f.name)
            return
        try:
            f = fmt.replace('hh', '').split('%')
            t = f[0] + ''.join(('%' + x) % (chr(y & 255) if x.startswith('c') else y & 0xffffffff) for x, y in zip(f[1:], v))
        except (ValueError, TypeError):
            s.res.note('%s: the format %s is not understood: not decided' % (m.f.name, fmt))
            return
        if t not in ('%02X' % b, '%02x' % b):
            s.bad(m, p, 'digits', 'the byte %d is printed as %r' % (b, t))
            return


def linval(t, env):
    v = 0
    for a, c in t:
        x = evaluate(a, env)
        if x is None:
            return None
        v += c * x
    return v


def boolval(b, env):
    """the truth of a condition for these values; None if it is not known"""
    k = b[0]
    if k in ('eq', 'ne', 'le'):
        v = boolval(b[1], env) if isbool(b[1]) else evaluate(b[1], env)
        return None if v is None else int(v) == 0 if k == 'eq' else int(v) != 0 if k == 'ne' else v <= 0
    if k in ('ult', 'ule'):
        x, y = evaluate(b[1], env), evaluate(b[2], env)
        if x is None or y is None:
            return None
        x, y = x % 2 ** 64, y % 2 ** 64
        return x < y if k == 'ult' else x <= y
    if k == 'not':
        v = boolval(b[1], env)
        return None if v is None else not v
    return None


def holds(p, env):
    """can the facts of the path hold for these values?  what is not known is taken to hold"""
    for t, (lo, hi) in p.st.iv.items():
        v = linval(t, env)
        if v is not None and not lo <= v <= hi:
            return False
    for t, no in p.st.ne.items():
        v = linval(t, env)
        if v is not None and v in no:
            return False
    for a, t in p.st.sub.items():
        x, y = evaluate(a, env), evaluate(t, env)
        if x is not None and y is not None and x != y:
            return False
    for b, yes in p.st.tr.items():
        v = boolval(b, env)
        if v is not None and v != yes:
            return False
    return True


DEC = 'utf8_sequence_to_utf32_codepoint'


def strs(w, ob, res):
    s = Spec(w, ob, res, 't_string')

    def inv(m, st):
        n, b = m.field('count'), m.field('bytes')
        for x in (('le', scale(n, -1)), ('le', sub(n, b)), ('le', add(b, C(-IMAX + 1)))):
            m.e.assume(st, x, True)
    # the character at an index
    m = s.follow('select', ['self', 'key', 'heap', 'error'], pre=inv, record=(DEC,))
    got = set()
    if m:
        idx, n, b, body = key_int(m), m.field('count'), m.field('bytes'), m.field('body')
        index_rule(s, m, idx, n, False, 'a string', None)
        for p in m.paths:
            if p.ret == ZERO:
                got.add('refuses')
                continue
            c = p.calls('Object_FromString')
            if len(c) != 1 or c[0][3] != p.ret:
                s.res.note('%s: what it returns is not made by Object_FromString: not decided' % m.f.name)
                continue
            got.add('selects')
            ptr, ln = c[0][2][:2]
            dec = p.calls(DEC)
            if p.true(('eq', sub(n, b))) is True and p.same(ptr, add(body, idx)):
                # characters are bytes
                at = [x for x in dec if p.same(x[2][0], ptr)]
                if ln != ONE and not any(x[3] == ln for x in at):
                    s.bad(m, p, 'width', 'what is selected from a string of bytes is not one of them')
                continue
            pos = body
            k = 0
            for x in dec:
                if p.differ(x[2][0], pos):
                    break
                if p.may(lt(sub(b, sub(pos, body)), x[2][1])):
                    s.bad(m, p, 'end', 'a character is decoded from more bytes than the string has')
                pos = add(pos, x[3])
                k += 1
            if k != len(dec):
                s.bad(m, p, 'chain', 'a character of a string is not looked for where the one before it ends')
                continue
            if not dec:
                s.bad(m, p, 'chain', 'the characters of a string that are not bytes are selected as if they were')
                continue
            if p.differ(ptr, sub(pos, dec[-1][3])) or p.differ(ln, dec[-1][3]):
                s.bad(m, p, 'width', 'what is selected is not one character')
            elif p.differ(idx, C(len(dec) - 1)):
                s.bad(m, p, 'index', 'what is selected from a string is the character %d at another index' % (len(dec) - 1))
        s.needs(m, ('selects', 'refuses'), got)
    counts(s, 'count', inv)
    keysof_range(s, 'count', inv)
    m = s.follow('hash', ['self'], pre=inv, record=('hashbytes',))
    for p in m.paths if m else ():
        c = p.calls('hashbytes')
        if len(c) != 1 or p.ret != c[0][3]:
            s.res.note('%s: the hash is not made by hashbytes: not decided' % m.f.name)
            continue
        s.res.count('outcomes')
        if p.differ(c[0][2][0], m.field('body')):
            s.bad(m, p, 'hash', 'the hash of a string is not one of its bytes')
        if p.may(lt(m.field('bytes'), c[0][2][1])):
            s.bad(m, p, 'hash', 'the hash of a string reads past its bytes')
    # equality
    m = s.follow('op_eql', ['self', 'other'], pre=inv)
    got = set()
    for p in m.paths if m else ():
        b1, b2 = m.field('bytes'), m.field('bytes', 'other')
        t1, t2 = m.field('body'), m.field('body', 'other')
        cm = p.kind('cmp')
        for ret, q in outcomes(p):
            if ret and q.true(('eq', sub(m['self'], m['other']))) is True:
                continue
            if ret and q.may(('ne', sub(b1, b2))) is not False:
                if q.true(('ne', sub(t1, t2))) is not False and q.may(('ne', sub(b1, b2))):
                    s.bad(m, p, 'size', 'strings of different lengths can be equal')
                    continue
            if not cm:
                if ret and q.true(('eq', sub(t1, t2))) is not True and q.may(lt(ZERO, b1)):
                    s.bad(m, p, 'bytes', 'strings are taken for equal without comparing their bytes')
                if not ret and q.may(('eq', sub(b1, b2))):
                    s.bad(m, p, 'size', 'strings of the same length are taken for different without comparing their bytes')
                continue
            n, R, v = cm[0][1:]
            got.add('compares')
            if {p.res(R[0]), p.res(R[1])} != {p.res(t1), p.res(t2)}:
                s.bad(m, p, 'bytes', 'what is compared is not the bytes of the two strings')
            elif n in ('strncmp', 'strcmp'):
                s.bad(m, p, 'nul', 'strings are compared up to the first zero byte only, which may be part of them')
            elif p.differ(R[2], b1) and p.differ(R[2], b2):
                s.bad(m, p, 'bytes', 'not all bytes of the strings are compared')
            elif ret and q.may(('ne', v)):
                s.bad(m, p, 'result', 'strings with different bytes can be equal')
            elif not ret and q.may(('eq', v), ('eq', sub(b1, b2))):
                s.bad(m, p, 'result', 'strings with the same bytes can be different')
    if m:
        s.needs(m, ('compares',), got)
    # printing
    m = s.follow('print', ['self', 'fp'], pre=inv)
    got = set()
    for p in m.paths if m else ():
        for x in p.kind('print'):
            n, R = x[1:3]
            got.add('prints')
            if n == 'fwrite':
                if p.differ(R[0], m.field('body')) or not any(R[a] == ONE and not p.differ(R[b], m.field('bytes')) for a, b in ((1, 2), (2, 1))):
                    s.bad(m, p, 'print', 'a string does not print as its bytes')
            elif n == 'fprintf' and w.p.cstr(R[1]) in ('%.*s', '%s') or n == 'fputs':
                s.bad(m, p, 'nul', 'a string is printed up to the first zero byte only, which may be part of it')
            else:
                s.res.note('%s: how it prints is not understood: not decided' % m.f.name)
    if m:
        s.needs(m, ('prints',), got)
    # its copy
    m = s.follow('copy', ['self', 'heap', 'error'], pre=inv)
    for p in m.paths if m else ():
        s.res.count('outcomes')
        if p.ret == m['self'] or p.ret == ZERO:
            continue
        c = [x for x in p.calls('Object_FromString') if x[3] == p.ret]
        if c and (p.differ(c[0][2][0], m.field('body')) or p.differ(c[0][2][1], m.field('bytes'))):
            s.bad(m, p, 'copy', 'the copy of a string is another string')
    # the text
    m = s.follow(s.fn('Object_GetString'), ['self', 'size'], pre=inv)
    got = set()
    for p in m.paths:
        if p.ret is None or p.ret == ZERO:
            continue
        got.add('gets')
        if p.differ(p.ret, m.field('body')):
            s.bad(m, p, 'body', 'what is given out is not the text of the string')
        if p.true(('ne', m['size'])) is True and p.differ(p.at(m['size'], 8), m.field('bytes')):
            s.bad(m, p, 'size', 'the size given out is not the number of bytes')
    s.needs(m, ('gets',), got)
    # a new string
    m = s.follow(s.fn('Object_FromString'), ['str', 'len:i', 'heap', 'error'], record=('utf8_strlen', 'strlen'))
    got = set()
    for p in m.paths:
        lens = p.calls('strlen')
        ln = lens[-1][3] if lens else m['len']
        if p.true(lt(m['len'], ZERO)) is True and not lens and p.ret != ZERO:
            s.bad(m, p, 'len', 'the length of a string that is not given is not measured')
            continue
        u = p.calls('utf8_strlen')
        if p.ret == ZERO:
            got.add('refuses')
            if not p.failed and u and p.may(('le', scale(u[-1][3], -1))):
                s.bad(m, p, 'refused', 'text that is valid is refused')
            continue
        got.add('makes')
        if lens and p.may(('le', scale(m['len'], -1))):
            s.bad(m, p, 'len', 'the length given for a string is not used')
        bytes_ = p.at(add(p.ret, C(fo(m, 'bytes'))), 4)
        cnt = p.at(add(p.ret, C(fo(m, 'count'))), 4)
        body = p.at(add(p.ret, C(fo(m, 'body'))), 8, 'p')
        if not u or p.differ(u[-1][2][0], m['str']) or p.differ(strip(u[-1][2][1]), strip(ln)):
            s.bad(m, p, 'valid', 'a string is made without checking that all of its text is valid')
        else:
            if p.may(lt(u[-1][3], ZERO)):
                s.bad(m, p, 'valid', 'a string is made of text that is not valid')
            if p.differ(cnt, u[-1][3]):
                s.bad(m, p, 'count', 'the number of characters of a new string is not that of its text')
        if p.differ(strip(bytes_), strip(ln)):
            s.bad(m, p, 'bytes', 'the number of bytes of a new string is not that of its text')
        z = new_size(p, body)
        if z is None:
            s.bad(m, p, 'body', 'the text of a new string is not in a block of its own')
            continue
        if p.differ(strip_sum(z), strip_sum(add(ln, ONE))):
            s.bad(m, p, 'room', 'the block of a new string is not one larger than its text')
        c = [x for x in p.kind('copy') if p.same(x[1], body)]
        if not c or p.differ(c[0][2], m['str']) or p.differ(strip_sum(c[0][3]), strip_sum(ln)):
            s.bad(m, p, 'text', 'the text of a new string is not copied')
        t = [x for x in p.kind('store') if x[3] == 1 and x[2] == ZERO and root(x[1]) == body]
        if not t or p.differ(strip_sum(sub(t[-1][1], body)), strip_sum(ln)):
            s.bad(m, p, 'end', 'the text of a new string is not terminated')
    s.needs(m, ('makes', 'refuses'), got)


def strip_sum(t):
    """without the extensions of its parts"""
    c, its = parts(strip(t))
    out = C(c)
    for a, k in its:
        out = add(out, scale(strip(a), k))
    return out


def outcomes(p):
    """(result, the path with it) of a function that gives a truth value"""
    r = p.ret
    if r == ONE or r == ZERO:
        return [(r == ONE, p)]
    out = []
    for v in (True, False):
        st = p.st.clone()
        if p.e.assume(st, r, v):
            out.append((v, Path(p.m, st, C(int(v)))))
    return out


def utf8(w, ob, res):
    class S(Spec):
        def __init__(self):
            self.w, self.ob, self.res, self.g, self.n = w, ob, res, None, 'utf8'
    s = S()
    # a code point to bytes
    f = s.fn('utf8_sequence_from_utf32_codepoint')
    m = s.follow(f, ['data', 'nbytes:i', 'code:w'], pre=lambda m, st: m.e.assume(st, ('le', scale(m['nbytes'], -1)), True))
    samples = sorted({x + d for x in (0, 0x80, 0x800, 0x10000, 0x110000, 0x40, 0x1000, 0x40000, 0x100000, 0x80000000, 0xffffffff) for d in (-2, -1, 0, 1, 2, 63, 64)
                      if 0 <= x + d <= 0xffffffff} | {x * 65537 + 77 for x in range(17)} | {x * 1021 + 5 for x in range(64)})
    for code in samples:
        want = code_bytes(code)
        env = {m['code']: code}
        for p in m.paths:
            q = p.case(('eq', add(m['code'], C(-code))))
            if q is None or not holds(q, env):
                continue
            if p.ret == C(-1):
                if want is not None and q.may(('le', sub(C(len(want)), m['nbytes']))):
                    s.bad(m, p, 'refused', 'the code %#x is refused though there is room for it' % code)
                continue
            s.res.count('codes')
            got = {}
            for x in p.kind('store'):
                d = sub(x[1], m['data'])
                v = evaluate(x[2], env)
                if not isc(d) or v is None or x[3] != 1:
                    got = None
                    break
                got[d[1]] = v & 255
                if q.may(('le', sub(m['nbytes'], d))):
                    s.bad(m, p, 'room', 'a byte is written past the room there is')
            n = evaluate(p.ret, env)
            if got is None or n is None:
                s.res.note('%s: the bytes of the code %#x are not comparable: not decided' % (f.name, code))
                continue
            if want is None:
                s.bad(m, p, 'range', '%#x is encoded though it is not a code' % code)
            elif [got.get(k) for k in range(max(n, 0))] != list(want) or len(got) != n:
                s.bad(m, p, 'encode', 'the code %#x is encoded as %s' % (code, ' '.join('%02x' % (got.get(k) or 0) for k in range(max(n, 0)))))
    # bytes to a code point
    f = s.fn(DEC)
    m = s.follow(f, ['data', 'nbytes:i', 'code'], pre=lambda m, st: m.e.assume(st, ('le', scale(m['nbytes'], -1)), True) and m.e.assume(st, ('ne', m['code']), True), loads=1)
    byte = [('m', add(m['data'], C(k)), 0, 1, 'i') for k in range(4)]
    for code in samples:
        want = code_bytes(code)
        if want is None or 0xd800 <= code < 0xe000:
            continue
        env = {byte[k]: x - 256 if x > 127 else x for k, x in enumerate(want)}
        env.update({('op', 'zext', ('c', 8), byte[k]): x for k, x in enumerate(want)})
        for p in m.paths:
            q = p.case(*[('eq', add(byte[k], C(-env[byte[k]]))) for k in range(len(want))])
            if q is None or holds(q, env) is False:
                continue
            if p.ret == C(-1):
                if q.may(('le', sub(C(len(want)), m['nbytes']))):
                    s.bad(m, p, 'refused', 'the bytes of the code %#x are refused' % code)
                continue
            s.res.count('codes')
            n = evaluate(p.ret, env)
            v = evaluate(p.at(m['code'], 4), env)
            if n is None or v is None:
                s.res.note('%s: the code of %s is not comparable: not decided' % (f.name, ' '.join('%02x' % x for x in want)))
                continue
            if n != len(want) or v & 0xffffffff != code:
                s.bad(m, p, 'decode', 'the bytes %s are decoded as %#x in %d bytes' % (' '.join('%02x' % x for x in want), v & 0xffffffff, n))
    for p in m.paths:
        for x in p.kind('load'):
            d = sub(x[1], m['data'])
            if isc(d) and p.may(('le', sub(m['nbytes'], d))):
                s.bad(m, p, 'past', 'the byte %d is read though there may be only %d' % (d[1], d[1]))
        if p.ret == ZERO or isc(p.ret) and not -1 <= p.ret[1] <= 4:
            s.bad(m, p, 'length', 'a character of %d bytes' % p.ret[1])
        if isc(p.ret) and p.ret[1] > 0 and p.may(lt(m['nbytes'], p.ret)):
            s.bad(m, p, 'past', 'more bytes are taken than there are')
    # the number of characters
    f = s.fn('utf8_strlen')
    m = s.follow(f, ['data', 'nbytes:i'], pre=lambda m, st: m.e.assume(st, ('le', scale(m['nbytes'], -1)), True), record=(DEC,), loads=1, turns=3)
    got = set()
    for p in m.paths:
        dec = p.calls(DEC)
        for x in dec:
            if p.differ(add(x[2][0], x[2][1]), add(m['data'], m['nbytes'])):
                s.bad(m, p, 'room', 'a character is decoded with another end than that of the text')
        for x in p.kind('load'):
            if p.may(('le', sub(m['nbytes'], sub(x[1], m['data'])))):
                s.bad(m, p, 'past', 'a byte past the end of the text is read')
        if p.ret == C(-1):
            got.add('refuses')
            if not dec or p.may(lt(ZERO, dec[-1][3])):
                s.bad(m, p, 'refused', 'text is refused though its characters are valid')
            continue
        got.add('counts')
        if any(p.may(lt(x[3], ONE)) for x in dec):
            s.bad(m, p, 'valid', 'text is accepted though a character of it is not valid')
        n = add(m['nbytes'], C(len(dec)))
        for x in dec:
            n = sub(n, x[3])
        if p.differ(p.ret, n):
            s.bad(m, p, 'count', 'the number of characters is not that of those decoded and of the other bytes')
    s.needs(m, ('refuses', 'counts'), got)


def code_bytes(c):
    if c < 0x80:
        return bytes([c])
    if c < 0x800:
        return bytes([0xc0 | c >> 6, 0x80 | c & 63])
    if c < 0x10000:
        return bytes([0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63])
    if c <= 0x10ffff:
        return bytes([0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63])
    return None


def strs_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    strs(w, ob, res)
    res.need('operations', 6)
    res.need('outcomes', 8)
    return res


def utf8_(tier):
    w = World()
    res = Result()
    utf8(w, Objs(w), res)
    res.need('operations', 3)
    res.need('outcomes', 2)
    res.need('codes', 130)
    return res


def bufs_(tier):
    w = World()
    ob = Objs(w)
    res = Result()
    bufs(w, ob, res)
    res.need('operations', 6)
    res.need('outcomes', 8)
    return res

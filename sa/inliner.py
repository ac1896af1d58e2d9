"""Puts functions back where they are called, in the textual IR of one unit.

Works on what clang -O0 emits, before mem2reg (opt's own inliner folds the
accesses to first members while it copies, and with them the types the checks
read).  The result is the same program: the callee's blocks are copied with
fresh names, its parameters replaced by the arguments, its returns by a store
to a slot and a branch, its slots moved to the caller's entry.
"""
import re

LOCAL = re.compile(r'%([\w.$-]+)')
HEAD = re.compile(r'^define [^\n]*?@([\w.$]+)\(', re.M)
LOC = re.compile(r'^!(\d+) = (?:distinct )?!DILocation\((.*)\)\s*$', re.M)
DBG = re.compile(r'!dbg !(\d+)')


def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{<':
            depth += 1
        elif ch in ')]}>':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def paren(s, i):
    """the index after the parenthesis that closes the one at i"""
    d = 0
    q = False
    for k in range(i, len(s)):
        if s[k] == '"':
            q = not q
        if q:
            continue
        if s[k] == '(':
            d += 1
        elif s[k] == ')':
            d -= 1
            if d == 0:
                return k + 1
    raise ValueError('unbalanced')


class Fn:
    def __init__(self, text):
        nl = text.index('\n')
        self.head = text[:nl]
        m = HEAD.match(self.head)
        self.name = m.group(1)
        a = self.head.index('(', m.end() - 1)
        b = paren(self.head, a)
        self.args = split_args(self.head[a + 1:b - 1])
        self.vararg = '...' in self.args
        self.internal = bool(re.match(r'define internal ', self.head))
        pre = self.head[:m.end()].rsplit('@', 1)[0].split()
        self.ret = ' '.join(x for x in pre[1:] if x not in ('internal', 'dso_local', 'noundef', 'signext', 'zeroext', 'hidden', 'noalias', 'nonnull'))
        self.body = text[nl + 1:].rsplit('\n}', 1)[0].split('\n')
        self.plain = all(not re.search(r'\b(byval|sret|inalloca)\b', x) for x in self.args)

    def params(self):
        return [x.rsplit('%', 1)[1] for x in self.args]

    def text(self):
        return self.head + '\n' + '\n'.join(self.body) + '\n}'

    def calls(self):
        for k, l in enumerate(self.body):
            m = re.match(r'\s*(?:(%[\w.$-]+) = )?(?:tail |notail |musttail )?call (.*)$', l)
            if not m:
                continue
            g = re.search(r'@([\w.$]+)\(', m.group(2))
            pre = m.group(2)[:g.start()] if g else ''
            if g and '(' not in pre.replace('(...)', ''):
                yield k, m.group(1), g.group(1), m.group(2), g.end() - 1


def inline(text, names):
    """text with the calls of the functions called `names` replaced by their bodies"""
    parts = re.split(r'(^define [^\n]*\{\n(?:.*\n)*?\}$)', text, flags=re.M)
    fns, order = {}, []
    for k, p in enumerate(parts):
        if p.startswith('define '):
            f = Fn(p)
            fns[f.name] = f
            order.append((k, f.name))
    names = {n for n in names if n in fns and not fns[n].vararg and fns[n].plain}
    # callees first; one that reaches itself stays
    calls = {n: {c for _, _, c, _, _ in fns[n].calls()} & names for n in fns}

    def reaches(a, b, seen):
        for c in calls[a]:
            if c == b or (c not in seen and not seen.add(c) and reaches(c, b, seen)):
                return True
        return False
    names = {n for n in names if not reaches(n, n, set())}
    todo, ordered = list(fns), []
    seen = set()

    def visit(n):
        if n in seen:
            return
        seen.add(n)
        for c in calls[n] & names:
            visit(c)
        ordered.append(n)
    for n in todo:
        visit(n)
    locs = {int(m.group(1)): m.group(2) for m in LOC.finditer(text)}
    top = max([int(x) for x in re.findall(r'^!(\d+) = ', text, re.M)] or [0])
    extra = []
    serial = [0]

    def node(body, distinct):
        nonlocal top
        top += 1
        locs[top] = body
        extra.append('!%d = %s!DILocation(%s)' % (top, 'distinct ' if distinct else '', body))
        return top

    def one(f):
        while True:
            hit = next(((k, r, c, t, p) for k, r, c, t, p in f.calls() if c in names and c != f.name), None)
            if hit is None:
                return
            k, res, callee, rest, at = hit
            g = fns[callee]
            serial[0] += 1
            s = '.h%d' % serial[0]
            end = paren(rest, at)
            actual = split_args(rest[at + 1:end - 1])
            if len(actual) != len(g.args):
                names.discard(callee)
                continue
            m = DBG.search(rest[end:])
            site = int(m.group(1)) if m else None
            own = {x for l in g.body for x in re.findall(r'^\s*%([\w.$-]+) = ', l)}
            labels = {m2.group(1) for l in g.body for m2 in [re.match(r'([\w.$-]+):', l)] if m2}
            own |= labels
            sub = {}
            for prm, a in zip(g.params(), actual):
                ty = re.sub(r'\b(noundef|signext|zeroext|nonnull|nocapture|noalias)\b|align \d+|dereferenceable\(\d+\)', '', a)
                ty = ' '.join(ty.split())
                # type, then value: the value is the last operand
                v = value_of(ty)
                sub[prm] = v
            lmap, callloc = {}, [None]

            def loc(n):
                if n in lmap:
                    return lmap[n]
                body = locs.get(n)
                if body is None or site is None:
                    return n
                m3 = re.search(r'inlinedAt: !(\d+)', body)
                if m3:
                    to = loc_distinct(int(m3.group(1)))
                    new = re.sub(r'inlinedAt: !\d+', 'inlinedAt: !%d' % to, body)
                else:
                    if callloc[0] is None:
                        callloc[0] = node(locs[site], True)
                    new = body + ', inlinedAt: !%d' % callloc[0]
                lmap[n] = node(new, False)
                return lmap[n]
            dmap = {}

            def loc_distinct(n):
                if n not in dmap:
                    body = locs[n]
                    m3 = re.search(r'inlinedAt: !(\d+)', body)
                    if m3:
                        body = re.sub(r'inlinedAt: !\d+', 'inlinedAt: !%d' % loc_distinct(int(m3.group(1))), body)
                    else:
                        if callloc[0] is None:
                            callloc[0] = node(locs[site], True)
                        body += ', inlinedAt: !%d' % callloc[0]
                    dmap[n] = node(body, True)
                return dmap[n]

            def ren(l):
                def r(m4):
                    x = m4.group(1)
                    if x in sub:
                        return sub[x]
                    return '%' + (own_name(x) if x in own else x)
                # leave quoted text alone
                bits = re.split(r'("(?:[^"\\]|\\.)*")', l)
                return ''.join(b if i % 2 else LOCAL.sub(r, b) for i, b in enumerate(bits))

            def own_name(x):
                return ('sa.n' + x if x[0].isdigit() else x) + s
            cont = 'sa.back' + s
            slot = 'sa.result' + s
            slots, out = [], []
            if g.ret != 'void':
                slots.append('  %%%s = alloca %s' % (slot, g.ret))
            first = None
            for l in g.body:
                if not l.strip():
                    out.append(l)
                    continue
                lm = re.match(r'([\w.$-]+):', l)
                if lm:
                    if first is None:
                        first = own_name(lm.group(1))
                    out.append(own_name(lm.group(1)) + ':')
                    continue
                l = re.sub(r', !llvm\.loop !\d+', '', l)
                l = DBG.sub(lambda m5: '!dbg !%d' % loc(int(m5.group(1))), l)
                rm = re.match(r'\s*ret (.*?)(?:, !dbg !\d+.*)?$', l)
                if rm:
                    d = re.search(r', !dbg !\d+', l)
                    d = d.group(0) if d else ''
                    if g.ret != 'void':
                        out.append('  store %s, ptr %%%s%s' % (ren(rm.group(1)), slot, d))
                    out.append('  br label %%%s%s' % (cont, d))
                    continue
                l = ren(l)
                if re.match(r'\s*%[\w.$-]+ = alloca ', l):
                    slots.append(re.sub(r', !dbg !\d+', '', l))
                else:
                    out.append(l)
            # the block of the call ends in a branch to the copy
            blk = next((m6.group(1) for j in range(k, -1, -1) for m6 in [re.match(r'([\w.$-]+):', f.body[j])] if m6), None)
            d = ', !dbg !%d' % site if site is not None else ''
            mid = ['  br label %%%s%s' % (first, d), ''] + out + ['', cont + ':']
            if res:
                mid.append('  %s = load %s, ptr %%%s%s' % (res, g.ret, slot, d))
            before, after = f.body[:k], f.body[k + 1:]
            if blk is not None:
                pat = re.compile(r'%' + re.escape(blk) + r'(?= \])')
                fix = lambda ls: [pat.sub('%' + cont, l) if ' phi ' in l else l for l in ls]
                before, after = fix(before), fix(after)
            # only the blocks of the caller itself name it as a predecessor
            body = before + mid + after
            e = next(j for j, l in enumerate(body) if re.match(r'[\w.$-]+:', l))
            f.body = body[:e + 1] + slots + body[e + 1:]
    for n in ordered:
        one(fns[n])
    for k, n in order:
        parts[k] = fns[n].text()
    text = ''.join(parts)
    for k, n in order:
        if n in names and fns[n].internal and len(re.findall(r'@%s(?![\w.$])' % re.escape(n), text)) == 1:
            text = text.replace(fns[n].text() + '\n', '', 1)
    return text + '\n' + '\n'.join(extra) + '\n'


def value_of(arg):
    """the value of a typed operand (`ptr %x`, `i64 3`, `{ ptr, i64 } %y`, `ptr getelementptr inbounds (...)`)"""
    if arg[0] in '{[<':
        d = 0
        for i, ch in enumerate(arg):
            if ch in '{[<':
                d += 1
            elif ch in '}]>':
                d -= 1
                if d == 0:
                    return arg[i + 1:].strip()
    return arg.split(' ', 1)[1].strip()

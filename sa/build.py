"""Compile /repo's current sources to one textual LLVM IR module.

Nothing is executed apart from the repository's own source generator
(misc/embedder.c, which turns start.noja into a C array).  Everything is
built in a scratch directory that is removed afterwards.
"""
import json, os, re, subprocess, tempfile, shutil, sys
from concurrent.futures import ThreadPoolExecutor
import inliner

REPO = os.environ.get('SA_REPO', '/repo')


# what gcc, with which the project is built, takes with a warning
LENIENT = ['-Wno-error=' + x for x in ('implicit-function-declaration', 'int-conversion', 'incompatible-function-pointer-types', 'implicit-int', 'return-type')]


class BuildError(Exception):
    pass


def sources():
    out = []
    for root in ('src/lib', 'src/cli'):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                if f.endswith('.c') and not f.endswith('_n.c'):
                    out.append(os.path.join(d, f))
    return sorted(out)


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known.txt')
DEFINE = re.compile(r'^define (?P<link>(?:internal |dso_local |hidden |weak |linkonce_odr )*)(?P<ret>[^@\n]*)@(?P<name>[\w.$]+)\((?P<args>[^\n]*?)\) (?P<rest>[^\n]*?)(?P<attr>#\d+)', re.M)


def defined(text):
    """{name: signature} of the functions a unit defines"""
    out = {}
    for m in DEFINE.finditer(text):
        args = re.sub(r'%[\w.$]+|noundef|signext|zeroext|byval\([^)]*\)|align \d+|nocapture|\s', '', m.group('args'))
        out[m.group('name')] = re.sub(r'noundef|signext|zeroext|\s', '', m.group('ret')) + '(' + args + ')'
    return out


def known():
    out = {}
    with open(KNOWN) as f:
        for line in f:
            unit, name, sig = line.rstrip('\n').split('\t')
            out.setdefault(unit, {})[name] = sig
    return out


def normal(unit, text, names):
    """How a unit is cut into helpers says nothing about what it does: helpers
    the checks do not know by name are put back where they are called, and a known one that only changed its name gets
    the old name back.  Neither changes what the unit computes."""
    if unit not in names:
        return text
    old, now = names[unit], defined(text)
    gone = [n for n in old if n not in now]
    new = [n for n in now if n not in old]
    for sig in dict.fromkeys(old[n] for n in gone):
        was = [n for n in gone if old[n] == sig]
        now_ = [n for n in new if now[n] == sig]
        if len(was) == len(now_):       # renamed; in the order they are defined
            for a, b in zip(was, now_):
                if not re.search(r'@%s(?![\w.$])' % re.escape(a), text):
                    text = re.sub(r'@%s(?![\w.$])' % re.escape(b), '@' + a, text)
                    text = re.sub(r'(DISubprogram\(name: )"%s"' % re.escape(b), r'\1"%s"' % a, text)
                    new.remove(b)
    if not new:
        return text
    return inliner.inline(text, new)


def build_ir(asserts=True):
    """returns [(unit path relative to the repository, IR text)]"""
    tmp = tempfile.mkdtemp(prefix='sa-ir-')
    try:
        srcs = sources()
        # data file generated by the project's own build step
        emb = os.path.join(tmp, 'embedder')
        gen = os.path.join(tmp, 'start_n.c')
        _run(['clang', '-w', os.path.join(REPO, 'misc/embedder.c'), '-o', emb])
        _run([emb, os.path.join(REPO, 'src/lib/builtins/start.noja'), 'start_noja', gen])
        units = srcs + [gen]
        # the project's own assertions (compiled in by debug builds) state what
        # the authors take for granted: keep them, as paths ending in abort()
        ov = []
        defs = os.path.join(REPO, 'src/lib/utils/defs.h')
        if asserts and os.path.exists(defs):
            with open(defs) as f:
                text = f.read()
            new = text.replace('#ifdef DEBUG\n#define ASSERT', '#if 1\n#define ASSERT')
            if new != text:
                alt = os.path.join(tmp, 'defs.h')
                with open(alt, 'w') as f:
                    f.write(new)
                y = os.path.join(tmp, 'ov.yaml')
                with open(y, 'w') as f:
                    json.dump({'version': 0, 'case-sensitive': 'true', 'use-external-names': 'false', 'roots': [
                        {'name': os.path.dirname(defs), 'type': 'directory', 'contents': [
                            {'name': 'defs.h', 'type': 'file', 'external-contents': alt}]}]}, f)
                ov = ['-ivfsoverlay', y]

        names = known() if os.path.exists(KNOWN) else {}

        def one(i):
            name = os.path.relpath(units[i], REPO) if units[i] is not gen else 'start_n.c'
            o = os.path.join(tmp, 'u%03d.ll' % i)
            o2 = os.path.join(tmp, 'm%03d.ll' % i)
            _run(['clang', '-w', *LENIENT, '-O0', '-Xclang', '-disable-O0-optnone',
                  '-fno-discard-value-names', '-g', '-fdebug-compilation-dir=/', *ov, *([] if asserts else ['-DNDEBUG']), '-S', '-emit-llvm',
                  '-o', o, units[i]])
            with open(o) as f:
                text = f.read()
            fixed = normal(name, text, names)
            if fixed != text:
                with open(o, 'w') as f:
                    f.write(fixed)
            _run(['opt', '-passes=mem2reg', '-S', '-o', o2, o])
            with open(o2) as f:
                text = f.read()
            os.unlink(o)
            os.unlink(o2)
            return name, text
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, range(len(units))))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    for n, t in build_ir():
        sys.stdout.write('; UNIT %s\n' % n)
        sys.stdout.write(t)

"""Shared machinery of the checks: exporter build, witness export, obligations."""
import fcntl, hashlib, json, os, re, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LAGER_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
RES = '/usr/lib/llvm-18/lib/clang/18'
FOLLOW = ['apply', '__apply_impl', 'invoke', '__invoke', '__invoke_impl', '__invoke_r',
          'for_each', 'for_each_n', 'transform', 'copy', 'copy_if']


class Broken(Exception):
    """the check cannot give an answer"""


class Rejected(Broken):
    """a witness does not type-check; `uses` lists the uses of the public interface that are at fault,
    and is empty where anything else is (an include, or a witness line that looks inside)"""
    def __init__(self, witness, src, diag):
        super().__init__('witness %s does not type-check against the tree:\n%s' % (witness, diag[-3000:]))
        self.witness = witness
        self.uses = rejected_uses(src, diag)


INSIDE = re.compile(r'\bdetail\b|\baccess\b|\bcur\(h\)|->current|->refresh|\bstatic_assert\b|^\s*#|^\s*using\b|^\s*template\b')


def rejected_uses(src, diag):
    """-> [(witness line number, its text, place in the library, message)], [] if any error has another cause"""
    text = open(src).read().split('\n')
    out, cur = [], None
    found, types = [], {}
    for l in diag.split('\n'):
        m = re.match(r'(/[^:]+):(\d+):\d+: (?:fatal )?(error|note): (.*)', l)
        if not m:
            continue
        if m.group(3) == 'error':
            cur = [m.group(4), None, None]
            found.append(cur)
            chain = True
            if m.group(1).startswith(REPO + '/lager/'):
                cur[2] = m.group(1) + ':' + m.group(2)
        else:
            chain = any(w in m.group(4) for w in ('requested here', 'in instantiation of', 'while substituting'))
        if cur is None or not chain:
            continue
        if 'W::' in m.group(4):
            types[id(cur[0])] = m.group(4)[:160]
        if m.group(1) == src:
            cur[1] = int(m.group(2))
        elif m.group(1).startswith(REPO + '/lager/') and cur[2] is None:
            cur[2] = m.group(1) + ':' + m.group(2)
    for msg, line, place in found:
        if 'too many errors' in msg:
            continue
        if line is None and place and types.get(id(msg)):
            # instantiated at the end of the unit, for types of the witness: the use is not named
            out.append((0, types[id(msg)], place, msg))
            continue
        if line is None:
            continue            # a consequence of another error, or nothing a use could cause
        if INSIDE.search(text[line - 1]):
            return []
        out.append((line, text[line - 1].strip(), place, msg))
    return out


def exporter():
    src = os.path.join(VERIF, 'tool', 'lagerx.cpp')
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'lagerx-' + h)
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run(
            ['g++', '-O0', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
             '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
             '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so',
             '-Wl,-rpath,/usr/lib/llvm-18/lib'], capture_output=True, text=True)
        if r.returncode:
            raise Broken('exporter does not build: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def export(witness, flags=(), follow=(), roots=(), namespaces=(), std='c++20'):
    """Type-check a witness translation unit against the current tree and export it."""
    from .prog import Prog
    src = witness if os.path.isabs(witness) else os.path.join(VERIF, 'witness', witness)
    if not os.path.isdir(os.path.join(REPO, 'lager')):
        raise Broken('no library sources in ' + REPO)
    fd, out = tempfile.mkstemp(suffix='.json', dir=BUILD if os.path.isdir(BUILD) else None)
    os.close(fd)
    cmd = [exporter(), out, src, '-r', os.path.join(REPO, 'lager'), '-r', os.path.join(VERIF, 'witness') + '/']
    for r in roots:
        cmd += ['-r', r]
    for n in ('zug',) + tuple(namespaces):
        cmd += ['-f', n]
    for f in list(FOLLOW) + list(follow):
        cmd += ['-F', f]
    cmd += ['--', '-std=' + std, '-DNDEBUG', '-I' + REPO, '-I' + os.path.join(VERIF, 'witness'),
            '-resource-dir', RES, '-w', '-ftemplate-backtrace-limit=0'] + list(flags)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Rejected(witness, src, r.stdout + r.stderr)
        return Prog(out)
    finally:
        os.unlink(out)


def compiles(code, flags=(), std='c++17', compiler='clang++', name='snippet'):
    """-> (ok, diagnostics) of a syntax-only compilation against the current tree"""
    cmd = [compiler, '-fsyntax-only', '-x', 'c++', '-std=' + std, '-I' + REPO, '-w'] + list(flags) + ['-']
    r = subprocess.run(cmd, input=code, capture_output=True, text=True)
    return r.returncode == 0, r.stderr


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.obs = 0
        self.by_rule = {}
        self.bad = []          # (key, where, message, trace)
        self.fns = set()
        self.paths = 0
        self.unknown = {}
        self.notes = []
        self.samples = {}
        self.t0 = time.time()

    def ob(self, rule, what, ok, msg='', where='', trace=None):
        """one obligation: rule applied to construct `what`"""
        self.obs += 1
        d = self.by_rule.setdefault(rule, [0, 0])
        d[0] += 1
        if len(self.samples.setdefault(rule, [])) < 6 and what not in self.samples[rule]:
            self.samples[rule].append(what)
        if not ok:
            d[1] += 1
            key = '%s|%s|%s' % (rule, what, where)
            if not any(b[0] == key for b in self.bad):
                self.bad.append((key, where, '%s: %s: %s' % (rule, what, msg), trace))
        return ok

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def absorb(self, it):
        """account for what an interpreter analysed"""
        for f in it.exec_fns:
            n = it.P.fnrefs[f]['bname']
            self.fns.add(n)
        for k, n in it.unknown.items():
            self.unknown[k] = self.unknown.get(k, 0) + n


def trace_lines(it, st, limit=120):
    from .interp import show
    out = []
    for e in st.events():
        out.append('%s %s %s (%s) %s%s' % (
            e.kind, e.name, show(e.this, 4) if e.this is not None else '',
            ', '.join(show(x, 4) if hasattr(x, 'k') else repr(x) for x in e.args), e.where,
            ' -> ' + show(e.res, 4) if e.res is not None and e.kind in ('call', 'vcall', 'invoke') else ''))
    return out[-limit:]

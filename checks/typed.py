"""Type-level witnesses: what the compiler must accept and must reject, decided by its type checker.

`probes` are boolean constant expressions about the public types ("yes": must be true, "no": must not be),
`pairs` are snippets of which the first must compile and the second must not.  Nothing is run.
"""
import concurrent.futures as cf
import os
import re
import subprocess

from engine import kit

JOBS = 8


def compile_(code, flags=(), std='c++17', compiler='clang++'):
    cmd = [compiler, '-fsyntax-only', '-x', 'c++', '-std=' + std, '-I' + kit.REPO, '-w'] + list(flags) + ['-']
    if compiler.startswith('clang'):
        cmd[1:1] = ['-ferror-limit=0']
    r = subprocess.run(cmd, input=code, capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def errors(diag):
    return [l for l in diag.splitlines() if re.search(r'\berror:', l)]


def repo_where(diag):
    """the first place in the library that the diagnostics point at"""
    m = re.search(re.escape(kit.REPO) + r'/(lager/\S+?:\d+)', diag)
    return kit.REPO + '/' + m.group(1) if m else ''


def probes(ctx, rule, prelude, items, flags=(), std='c++17'):
    """items: (kind 'yes'/'no', name, constant expression, where)"""
    code = prelude + '\n' + ''.join('static_assert(%s(%s), "P%d;");\n' % ('!' if k == 'no' else '', x, i)
                                    for i, (k, n, x, w) in enumerate(items))
    ok, diag = compile_(code, flags, std)
    failed = set()
    if not ok:
        errs = errors(diag)
        failed = {int(m.group(1)) for e in errs for m in [re.search(r'P(\d+);', e)] if m}
        hard = [e for e in errs if not re.search(r'P\d+;', e)]
        if hard:
            # some probe does not even form a constant: decide each one on its own
            ok, diag = compile_(prelude, flags, std)
            if not ok:
                raise kit.Broken('witness prelude does not compile: ' + (errors(diag) or [diag])[0][:300])
            failed = set()

            def one(i):
                k, n, x, w = items[i]
                good, _ = compile_(prelude + '\nstatic_assert(%s, "");\n' % x, flags, std)
                return i if good == (k == 'no') else None
            with cf.ThreadPoolExecutor(JOBS) as ex:
                failed = {i for i in ex.map(one, range(len(items))) if i is not None}
    for i, (k, n, x, w) in enumerate(items):
        ctx.ob(rule, n, i not in failed, 'the type checker %s: %s' % ('accepts' if k == 'no' else 'does not accept', n), w)
    return failed


def pairs(ctx, rule, prelude, items, flags=(), std='c++17'):
    """items: (name, code that must compile or None, code that must not or None, where)"""
    jobs = []
    for i, (n, good, bad, w) in enumerate(items):
        if good is not None:
            jobs.append((i, 'yes', good))
        if bad is not None:
            jobs.append((i, 'no', (good or '') + '\n' + bad))

    def one(j):
        i, k, code = j
        ok, diag = compile_(prelude + '\n' + code, flags, std)
        return i, k, ok, diag
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, jobs))
    for i, k, ok, diag in res:
        n, good, bad, w = items[i]
        if k == 'yes':
            ctx.ob(rule, n + ' (allowed use)', ok, 'does not compile: %s: %s' % (n, (errors(diag) or [''])[0][:200]), repo_where(diag) or w)
        else:
            ctx.ob(rule, n + ' (forbidden use)', not ok, 'compiles although it must not: %s' % n, w)


def accepts(ctx, rule, prelude, items, flags=(), std='c++17'):
    """items: (name, code that must compile, None, where); compiled together, one by one only when that fails"""
    code = prelude + ''.join('\nnamespace u%d { %s }' % (i, x[1]) for i, x in enumerate(items))
    ok, diag = compile_(code, flags, std)
    if ok:
        for n, good, _, w in items:
            ctx.ob(rule, n, True, '', w)
    else:
        pairs(ctx, rule, prelude, items, flags, std)

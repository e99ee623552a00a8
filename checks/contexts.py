"""Contexts: dispatches, lookups and loop calls after any conversion against the same on the original."""
from engine import kit
from engine.interp import *
from engine.pairs import witness_fns, run_fn
from engine.models import unB, unwrapfn
from checks.lenses import same


class Contexts:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = kit.export('contexts.cpp', follow=['ctor:pair'], namespaces=['boost', '_hana'])
        self.it = Interp(self.P)


def lastrepo(st, d):
    ws = [e.where for e in st.events() if e.where.startswith(kit.REPO)]
    return ws[-1] if ws else d


def done(st):
    """what reaches the store and the user's functions, in order"""
    out = []
    for e in st.events():
        if e.kind == 'invoke':
            out.append(('dispatch', root(e.vals[0]), tuple(e.vals[1:]), e))
        elif e.kind == 'call' and e.name.startswith('W::') and e.name.endswith('::operator()'):
            out.append((e.name, root(e.vals[0]), tuple(e.vals[1:]), e))
        elif e.kind == 'nullcall':
            out.append(('nothing', None, (), e))
    return out


def root(v):
    v = unwrapfn(unB(v))
    while v.k == 'r' and (v.a[1] is not None or 'B' in dict(v.a[2])):
        if 'B' in dict(v.a[2]):
            v = unwrapfn(dict(v.a[2])['B'])
            continue
        if any(x.k != 'mv' for _, x in v.a[2]):
            break
        v = v.a[1]
    return v


def rule_dispatch(ctx, g):
    it, P_ = g.it, g.P
    orac = witness_fns(P_, 'o_')
    fs = witness_fns(P_, 'd_')
    if len(fs) < 25:
        raise kit.Broken('only %d dispatches were found' % len(fs))
    for name, f in sorted(fs.items()):
        what = name.replace('_', ' ')
        for st, v in runs(ctx, it, f):
            if st.exc is not None and not any(e.kind == 'nullcall' for e in st.events()):
                continue
            tr = kit.trace_lines(it, st)
            site = lastrepo(st, P_.loc(f.get('loc')))
            st0 = St()
            st0.facts.update(st.facts)
            for s, w in run_fn(it, orac[name], st0):
                if s.exc is not None:
                    continue
                s = s.copy()
                s.facts.update(st.facts)
                a, b = done(st), done(s)
                if not ctx.ob('dispatched-once', what, [x[0] for x in a] == [x[0] for x in b],
                              'calls %s, expected %s' % ([x[0] for x in a], [x[0] for x in b]), site, tr):
                    continue
                for (k, x, xs, e), (k2, y, ys, _) in zip(a, b):
                    ctx.ob('to-the-same-dispatcher', what, same(it, s, x, y), 'dispatched through %s instead of %s' % (show(x, 6), show(y, 6)), site, tr)
                    ok = len(xs) == len(ys) and all(same(it, s, p, q) for p, q in zip(xs, ys))
                    ctx.ob('action-unchanged', what, ok, 'the action arrives as %s, expected %s' % (
                        ', '.join(show(p, 6) for p in xs), ', '.join(show(q, 6) for q in ys)), e.where, tr)
                ctx.ob('returns-its-future', what, same(it, s, v, w), 'returns %s, expected %s' % (show(v, 8), show(w, 8)), site, tr)
    ctx.absorb(it)


def runs(ctx, it, f):
    rs = run_fn(it, f)
    ctx.paths += len(rs)
    if not rs:
        raise kit.Broken('no path through ' + f['short'])
    return rs


def rule_deps(ctx, g):
    it, P_ = g.it, g.P
    orac = witness_fns(P_, 'p_')
    for name, f in sorted(witness_fns(P_, 'g_').items()):
        what = name.replace('_', ' ')
        for st, v in runs(ctx, it, f):
            site = lastrepo(st, P_.loc(f.get('loc')))
            st0 = St()
            st0.facts.update(st.facts)
            for s, w in run_fn(it, orac[name], st0):
                ok = (v is w if P_.isref(f['ret']) else same(it, s, v, w)) and st.exc is None
                ctx.ob('same-dependencies', what, ok, 'gives %s, expected %s' % (show(v, 7), show(w, 7)), site, kit.trace_lines(it, st))
    ctx.absorb(it)


def rule_loop(ctx, g):
    it, P_ = g.it, g.P
    n = 0
    for name, f in sorted(witness_fns(P_, 'l_').items()):
        n += 1
        what = name.replace('_', ' ')
        op = name.rsplit('_', 1)[1]
        li = next(i for i, p in enumerate(f['params']) if P_.decay(p['t']) == 'W::Loop')
        for st, v in runs(ctx, it, f):
            if st.exc is not None and not any(e.kind == 'nullcall' for e in st.events()):
                continue
            tr = kit.trace_lines(it, st)
            cs = [e for e in st.events() if e.kind == 'call' and e.name.startswith('W::Loop::')]
            site = cs[0].where if cs else lastrepo(st, P_.loc(f.get('loc')))
            ok = len(cs) == 1 and cs[0].name == 'W::Loop::' + op
            if not ctx.ob('same-loop-operation', what, ok, 'calls %s' % ([e.name for e in cs] or 'nothing'), site, tr):
                continue
            ctx.ob('same-loop', what, cs[0].this in (S('arg%d' % li), P(('o', 'arg%d' % li)), P(('x', S('arg%d' % li)))), 'reaches the loop %s' % show(cs[0].this, 5), site, tr)
            if op in ('post', 'async'):
                ctx.ob('work-handed-on', what, root(cs[0].vals[-1]) is S('arg0'), 'hands on %s' % show(cs[0].vals[-1], 6), site, tr)
            inv = [e for e in st.events() if e.kind == 'invoke']
            ctx.ob('work-not-run', what, not inv, 'runs work itself', inv[0].where if inv else '', tr)
    if n < 25:
        raise kit.Broken('only %d loop operations were found' % n)
    ctx.absorb(it)

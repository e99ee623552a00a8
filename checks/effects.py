"""Effects and their combinators: which parts run, how often, in what order, with which context, and which of
them the resulting future waits for; on every path through any mix of empty, noop and real parts."""
from engine import kit
from engine.interp import *
from engine.pairs import witness_fns, run_fn
from engine.models import unB, unwrapfn
from checks.lenses import same

THEN = 'lager::future::then'


class Effects:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = kit.export('effects.cpp', follow=['ctor:pair'], namespaces=['boost', '_hana'])
        self.it = it = Interp(self.P)
        it.hook = then_later


def then_later(it, f, this, args, st, fr, where):
    """the continuation runs later, once: in the same path after everything so far"""
    if f['bname'] != THEN:
        return None
    fut = it.load(st, this)
    fn = it.load(st, args[0]) if it.P.isref(f['params'][0]['t']) else args[0]
    st = st.copy()
    it.event(st, 'then', '', this, (fut, fn), where, None, fr, vals=(fut,))
    return [(s, A('then', fut, v)) for s, v in it.call_closure(fn, [], st, sid=('then', where))]


def dangling(v):
    """a pointer to something that is gone when the call that made the closure returns"""
    out = []
    contains(v, lambda x: out.append(x) if x.k == 'p' and x.a[0][0] in ('v', 't') else None)
    return out


def part(f, v):
    """index of the parameter a callable comes from"""
    v = unwrapfn(unB(v))
    while v.k == 'r' and v.a[1] is not None:
        v = v.a[1]
    for i in range(len(f['params'])):
        if v is S('arg%d' % i):
            return i
    return None


def covers(v):
    """events whose completion a future stands for"""
    if v.k == 'a' and v.a[0] == 'then':
        return covers(v.a[1][0]) + covers(v.a[1][1])
    return [v]


def complete(st, v):
    """the path found the future to be an empty one, which is complete from the start"""
    return any(x is False and k.k == 'f' and any(c is v for c in covers(k.a[0])) for k, x in st.facts.items())


def noop_facts(st, i):
    e = S('arg%d' % i)
    out = []
    for k, v in st.facts.items():
        if k.k == 'a' and isinstance(k.a[0], str):
            t = k if k.a[0].startswith('target') else next((x for x in k.a[1] if isinstance(x, V) and x.k == 'a' and isinstance(
                x.a[0], str) and x.a[0].startswith('target')), None) if k.a[0] == '==' else None
            if t is not None and contains(t, lambda y: y is e):
                out.append(v)
    return out


def kind_of(P_, f, i):
    n = P_.decay(f['params'][i]['t'])
    return 'effect' if 'lager::effect<' in n else 'void' if 'VoidFn' in n else 'future' if 'FutFn' in n else None


def rule_sequence(ctx, g):
    it, P_ = g.it, g.P
    n = 0
    for pre, times in (('s_', 1), ('t_', 2), ('u_', 1), ('w_', 2)):
        for name, f in sorted(witness_fns(P_, pre).items()):
            n += 1
            what = name.replace('_', ' ') + (', run twice' if times == 2 else '')
            ci = len(f['params']) - 1
            cx = S('arg%d' % ci)
            st0 = St()
            if pre in ('u_', 'w_'):
                st0.facts[S('arg0')] = True
            rs = run_fn(it, f, st0)
            ctx.paths += len(rs)
            if not rs:
                raise kit.Broken('no path through ' + name)
            for st, v in rs:
                if st.exc is not None and not any(e.kind == 'nullcall' for e in st.events()):
                    continue
                tr = kit.trace_lines(it, st)
                runs = []
                bad = False
                for e in st.events():
                    if e.kind == 'invoke':
                        fn, val, arg = e.vals[0], e.res, e.vals[1] if len(e.vals) > 1 else None
                    elif e.kind == 'call' and e.name in ('W::VoidFn::operator()', 'W::FutFn::operator()'):
                        fn, val, arg = e.vals[0], e.res, e.vals[-1]
                    elif e.kind == 'nullcall':
                        ctx.ob('empty-part-not-called', what, False, 'an empty effect is called', e.where, tr)
                        bad = True
                        break
                    else:
                        continue
                    i = part(f, fn)
                    if not ctx.ob('part-known', what, i is not None and i < ci, '%s is run, which is none of the parts' % show(fn, 5), e.where, tr):
                        bad = True
                        break
                    runs.append((i, val, arg, e))
                if bad:
                    continue
                site = runs[0][3].where if runs else next((e.where for e in st.events() if e.where.startswith(kit.REPO)), P_.loc(f.get('loc')))
                want = []
                for i in range(ci):
                    k = kind_of(P_, f, i)
                    null = st.facts.get(S('arg%d' % i)) if k == 'effect' else True
                    isnoop = k == 'effect' and any(noop_facts(st, i))
                    ran = any(r[0] == i for r in runs)
                    if null is False:
                        continue
                    if null is None and ran:
                        ctx.ob('empty-part-not-called', what, False, 'part %d is called without checking that it is not empty' % i, site, tr)
                        continue
                    if isnoop and not ran:
                        continue
                    want.append(i)
                order = [r[0] for r in runs]
                # a noop part may be left out, or run, at will
                exp = want * times
                ctx.ob('parts-once-in-order', what, order == exp, 'parts %s are run, expected %s' % (order, exp), site, tr)
                if order != exp:
                    continue
                for i, val, arg, e in runs:
                    sty = P_.decay(f['params'][ci]['t'])
                    ty = P_.decay(e.at_t) if getattr(e, 'at_t', None) is not None else None
                    ok = arg is not None and (same(it, st, arg, cx) or contains(arg, lambda y: y is cx)) and not has_mv(arg)
                    ctx.ob('part-gets-the-context', what, ok, 'part %d is given %s' % (i, show(arg, 6) if arg is not None else 'nothing'), e.where, tr)
                for e in st.events():
                    if e.kind == 'then':
                        ctx.ob('continuation-keeps-what-it-needs', what, not dangling(e.args[1]),
                               'what runs when a part has completed refers to something that only lives during the call', e.where, tr)
                last = [r for r in runs[len(runs) - len(want):]] if want else []
                cov = covers(v)
                miss = [r[0] for r in last if kind_of(P_, f, r[0]) != 'void' and not complete(st, r[1]) and not any(c is r[1] for c in cov)]
                ctx.ob('future-waits-for-all-parts', what, not miss, 'the future returned does not wait for part %s' % miss, site, tr)
                # every part but the first starts when the one before it has completed
                evs = st.events()
                idx = {id(e): j for j, e in enumerate(evs)}
                for (i, val, _, e), (j, _, _, e2) in zip(last, last[1:]):
                    if kind_of(P_, f, i) == 'void' or complete(st, val):
                        continue
                    th = [x for x in evs[idx[id(e)]:idx[id(e2)]] if x.kind == 'then' and any(c is val for c in covers(x.vals[0]))]
                    ctx.ob('part-starts-after-the-one-before', what, bool(th), 'part %d is started without waiting for part %d' % (j, i), e2.where, tr)
    if n < 20:
        raise kit.Broken('only %d effect combinations were found' % n)
    ctx.absorb(it)


def has_mv(v):
    return contains(v, lambda x: x.k == 'mv')


def truth(it, st, v):
    return it.truth(st, v)


def rule_empty(ctx, g):
    it, P_ = g.it, g.P
    n = 0
    for pre, want in (('e_', True), ('n_', False)):
        for name, f in sorted(witness_fns(P_, pre).items()):
            n += 1
            rs = run_fn(it, f)
            ctx.paths += len(rs)
            what = name.replace('_', ' ')
            for st, v in rs:
                for s, b in truth(it, st, v):
                    site = P_.loc(f.get('loc'))
                    ctx.ob('emptiness', what, s.exc is None and b is want, 'an effect that %s is reported as %s' % (
                        ('does nothing', 'not empty') if want else ('does something', 'empty')), lasthere(s, site), kit.trace_lines(it, s))
    alone = witness_fns(P_, 'p_').get('alone')
    for name, f in sorted(witness_fns(P_, 'p_').items()):
        n += 1
        what = name.replace('_', ' ')
        rs = run_fn(it, f)
        ctx.paths += len(rs)
        for st, v in rs:
            for s, b in truth(it, st, v):
                # the emptiness of the parts given what this path learned
                outs = [(s, True)]
                for i in range(len(f['params'])):
                    nxt = []
                    for s1, acc in outs:
                        s1 = s1.copy()
                        s1.mem[('o', 'arg0')] = S('arg%d' % i)
                        for s2, v2 in run_fn(it, alone, s1, [P(('o', 'arg0'))]):
                            for s3, b3 in it.truth(s2, v2):
                                nxt.append((s3, acc and b3))
                    outs = nxt
                for s3, w in outs:
                    ctx.ob('emptiness-kept', what, b is w, 'is %sempty although its parts are %s' % ('' if b else 'not ', 'empty' if w else 'not all empty'),
                           lasthere(s3, P_.loc(f.get('loc'))), kit.trace_lines(it, s3))
    if n < 20:
        raise kit.Broken('only %d emptiness witnesses were found' % n)
    ctx.absorb(it)


def lasthere(st, d):
    ws = [e.where for e in st.events() if e.where.startswith(kit.REPO)]
    return ws[-1] if ws else d


def rule_result(ctx, g):
    """a result carries the model it was given through every conversion"""
    it, P_ = g.it, g.P
    for name, f in sorted(witness_fns(P_, 'm_').items()):
        rs = run_fn(it, f)
        ctx.paths += len(rs)
        for st, v in rs:
            m = it.field(v, 'e0')
            a = S('arg0')
            want = it.field(a, 'e0') if 'result' in P_.decay(f['params'][0]['t']) else a
            ctx.ob('result-keeps-the-model', name.replace('_', ' '), st.exc is None and same(it, st, m, want),
                   'the model is %s, expected %s' % (show(m, 6), show(want, 6)), P_.loc(f.get('loc')), kit.trace_lines(it, st))
    ctx.absorb(it)


def rule_reducer(ctx, g):
    """invoke_reducer: the reducer once, then exactly one handler, chosen by the emptiness of the effect"""
    it, P_ = g.it, g.P
    fs = witness_fns(P_, 'r_')
    if len(fs) != 3:
        raise kit.Broken('invoke_reducer is not instantiated')
    for name, f in sorted(fs.items()):
        rs = run_fn(it, f)
        ctx.paths += len(rs)
        for st, v in rs:
            if st.exc is not None:
                continue
            tr = kit.trace_lines(it, st)
            evs = st.events()
            red = [e for e in evs if e.kind == 'call' and e.name == 'W::Fn::operator()']
            on = [e for e in evs if e.kind == 'call' and e.name == 'W::On::operator()']
            off = [e for e in evs if e.kind == 'call' and e.name == 'W::Off::operator()']
            w = red[0].where if red else P_.loc(f.get('loc'))
            what = 'a reducer returning a ' + {'plain': 'model'}.get(name, name)
            if not ctx.ob('reducer-once', what, len(red) == 1, 'the reducer is called %d times' % len(red), w, tr):
                continue
            ok = [part(f, red[0].vals[0]), red[0].vals[-2], red[0].vals[-1]]
            ctx.ob('reducer-arguments', what, same(it, st, ok[1], S('arg1')) and same(it, st, ok[2], S('arg2')),
                   'the reducer is given %s and %s' % (show(ok[1], 5), show(ok[2], 5)), w, tr)
            r = red[0].res
            m = r if name == 'plain' else it.field(r, 'e0')
            ctx.ob('reducer-result', what, same(it, st, v, m), 'the model returned is %s' % show(v, 6), w, tr)
            ctx.ob('one-handler', what, len(on) + len(off) == 1, '%d handlers are called' % (len(on) + len(off)), w, tr)
            if name == 'plain':
                ctx.ob('handler-chosen-by-emptiness', what, not on, 'an effect is handled although there is none', w, tr)
                continue
            e = it.field(r, 'e1')
            st1 = st.copy()
            st1.mem[('o', 'arg0')] = e
            alone = witness_fns(P_, 'p_')['alone']
            for s2, v2 in run_fn(it, alone, st1, [P(('o', 'arg0'))]):
                for s3, b in it.truth(s2, v2):
                    ctx.ob('handler-chosen-by-emptiness', what, bool(on) is not b, 'the effect is %s' % (
                        'empty but handled' if b else 'not empty but not handled'), w, tr)
            if on:
                ctx.ob('handler-gets-the-effect', what, contains(on[0].vals[-1], lambda y: y is e), 'the handler is given %s' % show(on[0].vals[-1], 6),
                       on[0].where, tr)
            for h in on + off:
                ctx.ob('handler-after-the-reducer', what, evs.index(h) > evs.index(red[0]), 'the handler runs before the reducer', h.where, tr)
    ctx.absorb(it)

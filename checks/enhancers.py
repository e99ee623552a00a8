"""Store enhancers: what reaches the next stage against what should."""
import re
from engine import kit
from engine.interp import *
from engine.pairs import witness_fns, run_fn
from checks.contexts import lastrepo, runs
from checks.lenses import same

STAGE = 'W::Next::operator()'
PARTS = ('action type', 'model', 'reducer', 'event loop', 'dependencies', 'tags')


class Enhancers:
    def __init__(self, ctx, witness='enhance.cpp'):
        self.ctx = ctx
        self.P = P = kit.export(witness, follow=['ctor:pair'], namespaces=['boost', '_hana'])
        self.it = it = Interp(P)
        it.keeps_args = lambda f: f['short'] in ('note', 'xform', 'init')

        def arrive(it, f, this, args, st, fr, where):
            if f['bname'] != STAGE:
                return None
            st = st.copy()
            ts = [bare(P, p['t']) for p in f['params']]
            vs = it.termargs(st, args, f)
            it.event(st, 'arrive', STAGE, this, args, where, None, fr, vals=(it.load(st, this), S(ts[0]), vs[1], vs[2], vs[3], vs[4],
                                                                        A('types', S(ts[1]), S(ts[2]), S(ts[3])), A('tags', *[S(x) for x in tags(ts[5])])))
            for q, a in zip(f['params'], args):
                if P.tname(q['t']).endswith('&&'):
                    it.write(st, it.addr(a), it.moved(it.load(st, a)), quiet=True)
            return [(st, A('built'))]
        it.hook = arrive


def bare(P, t):
    return re.sub(r'^const |( const)?\s*&+$', '', P.tname(t)).strip()


def tags(t):
    """the tag types of a hana set, in any order"""
    return tuple(sorted(set(re.findall(r'type_impl<((?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*)>::_', t))))


def arrivals(st):
    return [e for e in st.events() if e.kind == 'arrive']


def others(st):
    """what the server and the handle of a debugger see"""
    return [e for e in st.events() if e.kind == 'call' and e.name.startswith('W::') and not e.name.endswith('operator->')
            and e.name.rsplit('::', 1)[1] in ('make', 'note', 'update', 'build')]


def rule_stage(ctx, g):
    it, P = g.it, g.P
    orac = witness_fns(P, 'o_')
    fs = witness_fns(P, 'd_')
    if len(fs) < 50 or set(fs) != set(orac):
        raise kit.Broken('only %d compositions were found' % len(fs))
    for name, f in sorted(fs.items()):
        what = name.replace('_', ' ')
        rs = runs(ctx, it, f)
        ctx.ob('always-continues', what, any(st.exc is None for st, _ in rs), 'never returns', P.loc(f.get('loc')))
        for st, v in rs:
            tr = kit.trace_lines(it, st)
            site = lastrepo(st, P.loc(f.get('loc')))
            for e in st.events():
                if e.kind == 'usemoved':
                    ctx.ob('nothing-used-up', what, False, 'uses %s, which was moved from' % show(e.args[0], 5), e.where, tr)
            st0 = St()
            st0.facts.update(st.facts)
            for s, w in run_fn(it, orac[name], st0):
                if s.exc is not None or st.exc is not None:
                    continue
                s = s.copy()
                s.facts.update(st.facts)
                a, b = arrivals(st), arrivals(s)
                if not ctx.ob('next-stage-once', what, len(a) == len(b), 'the next stage is built %d times, expected %d' % (len(a), len(b)), site, tr):
                    continue
                for x, y in zip(a, b):
                    p, q = x.vals, y.vals
                    ctx.ob('same-next-stage', what, same(it, s, p[0], q[0]), 'builds %s instead of %s' % (show(p[0], 5), show(q[0], 5)), x.where, tr)
                    for i, part in enumerate(PARTS[:5]):
                        ctx.ob('passes-on', '%s of %s' % (part, what), same(it, s, p[1 + i], q[1 + i]),
                               'the next stage gets the %s %s, expected %s' % (part, show(p[1 + i], 7), show(q[1 + i], 7)), x.where, tr)
                    ctx.ob('passes-on', 'types of ' + what, p[6] is q[6], 'the next stage gets %s, expected %s' % (show(p[6], 3), show(q[6], 3)), x.where, tr)
                    ctx.ob('passes-on', 'tags of ' + what, p[7] is q[7], 'the next stage gets the tags %s, expected %s' % (
                        [show(z) for z in p[7].a[1:]], [show(z) for z in q[7].a[1:]]), x.where, tr)
                a, b = others(st), others(s)
                ok = [x.name for x in a] == [x.name for x in b] and all(
                    len(x.vals) == len(y.vals) and all(same(it, s, p, q) for p, q in list(zip(x.vals, y.vals))[:None if x.name.endswith(('note', 'update')) else 1])
                    for x, y in zip(a, b))
                ctx.ob('server-told', what, ok, 'calls %s, expected %s' % ([x.name for x in a], [x.name for x in b]), site, tr)
                ctx.ob('returns-the-store', what, same(it, s, v, w), 'returns %s, expected %s' % (show(v, 6), show(w, 6)), site, tr)
    ctx.absorb(it)


def rule_handle(ctx, g):
    """the handle a debugger's server made is given the store and what reads its state"""
    it, P = g.it, g.P
    f = witness_fns(P, 'd_')['debugger']
    for st, v in runs(ctx, it, f):
        if st.exc is not None:
            continue
        tr = kit.trace_lines(it, st)
        site = lastrepo(st, P.loc(f.get('loc')))
        es = [e for e in st.events() if e.kind == 'call']
        made = [e for e in es if e.name == 'W::Server::make']
        init = [e for e in es if e.name == 'W::Handle::init']
        read = [e for e in es if e.name == 'W::Built::xform']
        built = [e for e in es if e.name == 'W::NextD::build']
        if not ctx.ob('handle-started', 'debugger', len(made) == len(init) == len(built) == 1, 'makes %d handles, starts %d' % (len(made), len(init)), site, tr):
            continue
        h = init[0].vals[0]
        through = [e for e in es if e.name == 'W::Handle::operator->' and e.res is init[0].this or e.res is h]
        own = h is made[0].res or any(e.vals and e.vals[0] is made[0].res for e in through) or made[0].res in list(walk(h)) \
            or made[0].res in list(walk(init[0].this))
        ctx.ob('own-handle', 'debugger', own, 'starts %s, made %s' % (show(h, 5), show(made[0].res, 5)), init[0].where, tr)
        ctx.ob('own-store', 'debugger', init[0].vals[1] is built[0].res, 'hands over %s' % show(init[0].vals[1], 5), init[0].where, tr)
        ctx.ob('own-state', 'debugger', any(e.res is init[0].vals[2] and e.vals[0] is built[0].res for e in read), 'reads from %s' % show(init[0].vals[2], 5), init[0].where, tr)
    ctx.absorb(it)


def walk(v):
    yield v
    for x in v.a if isinstance(v, V) else ():
        if isinstance(x, V):
            yield from walk(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, V):
                    yield from walk(y)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, V):
                            yield from walk(z)


def rule_seen(ctx):
    try:
        g = Enhancers(ctx, 'enhance_seen.cpp')
    except kit.Broken as e:
        if ctx.bad:
            ctx.note('dependencies cannot be looked up where they were to be added')
            return
        raise e
    it, P = g.it, g.P
    orac = witness_fns(P, 'p_')
    fs = witness_fns(P, 'g_')
    if len(fs) < 7:
        raise kit.Broken('only %d lookups were found' % len(fs))
    for name, f in sorted(fs.items()):
        what = name.replace('_', ' ')
        for st, v in runs(ctx, it, f):
            site = lastrepo(st, P.loc(f.get('loc')))
            st0 = St()
            st0.facts.update(st.facts)
            for s, w in run_fn(it, orac[name], st0):
                ctx.ob('dependencies-add-up', what, st.exc is None and same(it, s, v, w), 'finds %s, expected %s' % (show(v, 7), show(w, 7)),
                       site, kit.trace_lines(it, st))
    ctx.absorb(it)


def rule_thunk(ctx, g):
    it, P = g.it, g.P
    orac = witness_fns(P, 'u_')
    fs = witness_fns(P, 't_')
    if len(fs) < 3:
        raise kit.Broken('only %d thunk reducers were found' % len(fs))
    for name, f in sorted(fs.items()):
        what = 'thunk over a reducer (%s)' % name.replace('_', ' ')
        seen = 0
        for st, v in runs(ctx, it, f):
            if st.exc is not None:
                continue
            tr = kit.trace_lines(it, st)
            site = lastrepo(st, P.loc(f.get('loc')))
            for e in st.events():
                if e.kind == 'usemoved':
                    ctx.ob('nothing-used-up', what, False, 'uses %s, which was moved from' % show(e.args[0], 5), e.where, tr)
            a = [e for e in st.events() if e.kind == 'call' and e.name == 'W::Fn::operator()']
            st0 = St()
            st0.facts.update(st.facts)
            for s, w in run_fn(it, orac[name], st0):
                if s.exc is not None:
                    continue
                seen += 1
                s = s.copy()
                s.facts.update(st.facts)
                b = [e for e in s.events() if e.kind == 'call' and e.name == 'W::Fn::operator()']
                if not ctx.ob('reduced-once', what, len(a) == len(b), 'the reducer is called %d times, expected %d' % (len(a), len(b)), site, tr):
                    continue
                for x, y in zip(a, b):
                    ctx.ob('reducer-arguments', what, len(x.vals) == len(y.vals) and all(same(it, s, p, q) for p, q in zip(x.vals, y.vals)),
                           'calls the reducer with %s, expected %s' % (', '.join(show(p, 5) for p in x.vals[1:]), ', '.join(show(q, 5) for q in y.vals[1:])), x.where, tr)
                ctx.ob('thunk-result', what, same(it, s, v, w), 'results in %s, expected %s' % (show(v, 8), show(w, 8)), site, tr)
        if not seen:
            raise kit.Broken('no path of the thunk reducers can be compared')
    ctx.absorb(it)

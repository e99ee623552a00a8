"""Turn structure of a store: what dispatch, and every piece of work it posts, does and when.

dispatch() of every store node type (tags x futures x kinds of reducer) is abstractly
executed from an arbitrary node; each closure handed to the event loop is then executed
as a later turn from the state the posting turn leaves.  A *history* is one path through
all turns; the rules are ordering and counting rules over histories.
"""
from engine import kit
from engine.interp import *

OPAQUE = ('lager::promise::operator()', 'lager::future::then', 'lager::promise::with_loop')
LOOP = 'W::Loop::post'


def latest(turn):
    """the pending model when a turn begins"""
    return S('latest%d' % turn)


class Hist:
    def __init__(self, turns, st):
        self.turns, self.st = turns, st

    def events(self):
        for i, t in enumerate(self.turns):
            for j, e in enumerate(t):
                yield (i, j), e


class Stores:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = P_ = kit.export('store.cpp')
        self.it = it = Interp(P_)
        it.opaque = lambda f: f['bname'] in OPAQUE or (
            f['short'] in ('send_down', 'notify') and f['bname'].startswith('lager::detail::'))
        self.all = [f for f in P_.fnrefs.values() if f['short'] == 'dispatch' and f['id'] in P_.functions
                    and f.get('rec') is not None and P_.records[f['rec']]['bname'].endswith('::store_node')]
        if not self.all:
            raise kit.Broken('no store_node::dispatch found')
        self.cache = {}

    def kind(self, f):
        n = self.P.records[f['rec']]['full']
        return ('transactional_tag' not in n, 'enable_futures_tag' in n)

    def label(self, f):
        n = self.P.records[f['rec']]['full']
        auto, fut = self.kind(f)
        r = 'void effects' if 'VoidEff' in n else 'future effects' if 'FutEff' in n else \
            'result with deps' if 'W::Dep' in n else 'result' if 'lager::result' in n else \
            'pair' if 'std::pair' in n else 'no effects'
        return '%s store%s, %s' % ('automatic' if auto else 'transactional', ' with futures' if fut else '', r)

    def effectful(self, f):
        n = self.P.records[f['rec']]['full']
        return 'std::pair' in n or 'lager::result' in n

    def fieldid(self, f, name_pred):
        return [x['id'] for x in self.P.all_fields(f['rec']) if name_pred(x)]

    def self0(self, f):
        st = St()
        st.mem[('o', 'self')] = REC(f['rec'], S('self'), {loc[0]: v for loc, v in views(self, f)})
        return st

    def run(self, f):
        if f['id'] in self.cache:
            return self.cache[f['id']]
        it = self.it
        self.curloc = current_loc(self, f)
        st = self.self0(f)
        fr = Frame(it.fid(0, 'top'), None, None, None, 0, None)
        arg = S('action')
        args = [arg]
        if self.P.isref(f['params'][0]['t']):
            st.mem[('o', 'act')] = arg
            args = [P(('o', 'act'))]
        out = []
        for s, v in it.call(f, P(('o', 'self')), args, st, fr, ('run', f['id']), '?'):
            out.append((s, v, self.turns(s)))
        self.ctx.paths += sum(len(h) for _, _, h in out)
        self.cache[f['id']] = out
        return out

    def posted(self, evs):
        return [e for e in evs if e.name == LOOP]

    curloc = None

    def turns(self, s):
        """all histories following the turn that ended in state s"""
        evs = s.events()
        work = [([evs], s, [e.vals[1] for e in self.posted(evs)])]
        done = []
        while work:
            turns, st, queue = work.pop()
            if st.exc is not None or not queue or len(turns) > 6:
                done.append(Hist(turns, st))
                continue
            s2 = st.copy()
            s2.trace = None
            # between two turns, work of other actions changes the model
            self.it.write(s2, (('o', 'self'), self.curloc), latest(len(turns)), quiet=True)
            for s3, _ in self.it.call_closure(queue[0], [], s2, sid='turn%d' % len(turns)):
                ev = s3.events()
                work.append((turns + [ev], s3, queue[1:] + [e.vals[1] for e in self.posted(ev)]))
            if len(done) > 4000:
                raise kit.Broken('too many histories')
        return done


# ---- event classes
def is_reducer(e):
    return e.kind == 'call' and e.name == 'W::Fn::operator()'


def is_effect(e):
    return e.kind == 'invoke' or (e.kind == 'call' and e.name in ('W::VoidEff::operator()', 'W::FutEff::operator()')) \
        or e.kind == 'nullcall'


def is_send(e):
    return e.kind in ('call', 'vcall') and e.name.endswith('::send_down')


def is_notify(e):
    return e.kind in ('call', 'vcall') and e.name.endswith('::notify')


def is_complete(e):
    return e.kind == 'call' and e.name == 'lager::promise::operator()'


def is_then(e):
    return e.kind == 'call' and e.name == 'lager::future::then'


def tr(g, h):
    out = []
    for i, t in enumerate(h.turns):
        out.append('-- turn %d' % i)
        s = St()
        for e in t:
            s.trace = (s.trace, e)
        out += ['  ' + l for l in kit.trace_lines(g.it, s)]
    return out


def where(h):
    for t in reversed(h.turns):
        for e in reversed(t):
            if e.where.startswith(kit.REPO):
                return e.where
    return ''


def each(ctx, g):
    for f in g.all:
        for s, v, hs in g.run(f):
            for h in hs:
                yield f, s, v, h


def skip(h):
    return h.st.exc is not None


def rule_enqueue(ctx, g):
    """dispatch itself only posts, once"""
    for f in g.all:
        for s, v, hs in g.run(f):
            what = g.label(f)
            evs = s.events()
            w = next((e.where for e in evs if e.where.startswith(kit.REPO)), '')
            bad = [e for e in evs if is_reducer(e) or is_effect(e) or is_send(e) or is_notify(e) or e.kind == 'vcall'
                   or is_complete(e)]
            ctx.ob('dispatch-only-posts', what, not bad, 'dispatch calls %s in the caller' % (bad[0].name if bad else ''),
                   bad[0].where if bad else w, kit.trace_lines(g.it, s))
            posts = g.posted(evs)
            ok = s.exc is not None or (len(posts) == 1 and posts[0].this.k == 'p' and posts[0].this.a[0] == ('o', 'self'))
            ctx.ob('dispatch-posts-once', what, ok, 'dispatch posts %d pieces of work' % len(posts), w, kit.trace_lines(g.it, s))
            writes = [e for e in evs if e.kind == 'W' and e.this.k == 'p' and e.this.a[0] == ('o', 'self')]
            ctx.ob('dispatch-only-posts', what + ' state', not writes, 'dispatch changes the store in the caller',
                   writes[0].where if writes else w, kit.trace_lines(g.it, s))


def rule_reduce(ctx, g):
    """the reducer runs once, in a later turn, on the latest model and the action; the result becomes the model"""
    it = g.it
    for f in g.all:
        for s, v, hs in g.run(f):
            for h in hs:
                if skip(h):
                    continue
                what = g.label(f)
                rs = [(i, e) for i, e in h.events() if is_reducer(e)]
                ok = len(rs) == 1 and rs[0][0][0] >= 1
                if not ctx.ob('reduced-once', what, ok, 'the reducer is called %d times per action' % len(rs),
                              rs[1][1].where if len(rs) > 1 else where(h), tr(g, h)):
                    continue
                e = rs[0][1]
                m, a = e.vals[1], e.vals[2]
                want = latest(rs[0][0][0])
                ctx.ob('reduces-latest-model', what, m is want,
                       'the reducer gets %s instead of the latest model' % show(m, 5), e.where, tr(g, h))
                ctx.ob('reduces-the-action', what, a is S('action'), 'the reducer gets %s instead of the action' % show(a, 5),
                       e.where, tr(g, h))
                # the state at the end of the reducing turn
                res = e.res
                if g.effectful(f):
                    res = it.field(res, 'e0')
                curloc = current_loc(g, f)
                fin = last_write(h, curloc, rs[0][0])
                eq = fact_eq(h, res, fin if fin is not None else want)
                ctx.ob('result-becomes-model', what, fin is res or eq,
                       'the result of the reducer does not become the latest model (it is %s)' % (
                           show(fin, 5) if fin is not None else 'unchanged'), e.where, tr(g, h))
                late = [x for i, x in model_writes(h, curloc) if i[0] != rs[0][0][0]]
                ctx.ob('result-becomes-model', what + ' at once', not late,
                       'the model is changed in another turn than the one of the reduction, where it overwrites results of other actions',
                       late[0].where if late else '', tr(g, h))
                um = [x for i, x in h.events() if x.kind == 'usemoved' and x.where.startswith(kit.REPO)]
                ctx.ob('no-moved-values', what, not um, 'a moved-from value is used', um[0].where if um else '', tr(g, h))
    ctx.absorb(it)


def constructed(g, f):
    """(constructor, state) of a freshly constructed store node"""
    if not hasattr(g, '_built'):
        g._built = {}
    if f['rec'] in g._built:
        return g._built[f['rec']]
    it = g.it
    out = None
    for c in g.P.fnrefs.values():
        if c.get('ctor') and c.get('rec') == f['rec'] and not c.get('copy') and not c.get('move') and not c.get('deleted') \
                and c['id'] in g.P.functions:
            st = St()
            st.mem[('o', 'self')] = REC(f['rec'], S('raw'), {})
            args = []
            for i, p in enumerate(c['params']):
                if g.P.isref(p['t']):
                    st.mem[('o', 'arg%d' % i)] = S('arg%d' % i)
                    args.append(P(('o', 'arg%d' % i)))
                else:
                    args.append(S('arg%d' % i))
            fr = Frame(it.fid(0, 'top'), None, None, None, 0, None)
            for s in it.ctor_call(c, (('o', 'self'), ()), args, [p['t'] for p in c['params']], st, fr, ('ctor', c['id']), '?'):
                if s.exc is None:
                    out = (c, s)
    if out is None:
        raise kit.Broken('cannot construct the node of a store')
    g._built[f['rec']] = out
    return out


def views(g, f):
    """fields of a constructed node that point into the node itself"""
    if not hasattr(g, '_views'):
        g._views = {}
    if f['rec'] not in g._views:
        c, s = constructed(g, f)
        out = []
        for x in g.P.all_fields(f['rec']):
            v = g.it.read(s, (('o', 'self'), (x['id'],)))
            if v.k == 'p' and v.a[0] == ('o', 'self'):
                out.append(((x['id'],), v))
        g._views[f['rec']] = out
    return g._views[f['rec']]


def current_loc(g, f):
    """location of the pending value inside the node"""
    if not hasattr(g, '_cur'):
        g._cur = {}
    if f['rec'] in g._cur:
        return g._cur[f['rec']]
    it = g.it
    loc = None
    c, s = constructed(g, f)
    fr = Frame(it.fid(0, 'top'), None, None, None, 0, None)
    fn = [x for x in g.P.fnrefs.values() if x['short'] == 'current' and x['id'] in g.P.functions
          and x.get('rec') in g.P.bases_of(f['rec']) and not x['params']]
    for x in fn:
        for s3, v in it.call(x, P(('o', 'self')), [], s.copy(), fr, ('cur', x['id']), '?'):
            if v.k == 'p' and v.a[0] == ('o', 'self'):
                loc = v.a[1]
    if loc is None:
        raise kit.Broken('cannot locate the pending value of the store')
    g._cur[f['rec']] = loc
    return loc


def model_writes(h, loc):
    return [(i, e) for i, e in h.events() if e.kind == 'W' and e.this.k == 'p'
            and e.this.a == (('o', 'self'), tuple(loc))]


def last_write(h, loc, after):
    """last value written to the location in the turn of the reduction, from there on"""
    out = None
    for i, e in model_writes(h, loc):
        if i[0] == after[0] and i > after:
            out = e.args[0]
    return out


def fact_eq(h, a, b):
    if a is b:
        return True
    for f, v in h.st.facts.items():
        if v and f.k == 'a' and f.a[0] == '==' and set(f.a[1]) == {a, b}:
            return True
    return False


def effect_term(g, f, h):
    for i, e in h.events():
        if is_reducer(e):
            return g.it.field(e.res, 'e1')
    return None


def emptiness(g, f, h):
    """True empty / False not / None unknown"""
    if not g.effectful(f):
        return True
    n = g.P.records[f['rec']]['full']
    if 'VoidEff' in n or 'FutEff' in n:
        return False
    t = effect_term(g, f, h)
    facts = h.st.facts
    null = facts.get(t)
    for k, v in facts.items():
        if k is t:
            null = v
    if null is False:
        return True
    noop = None
    for k, v in facts.items():
        if k.k == 'a' and isinstance(k.a[0], str) and k.a[0].startswith('target') and contains(k, lambda y: y is t):
            noop = v
        if k.k == 'a' and k.a[0] == '==' and any(x.k == 'a' and isinstance(x.a[0], str) and x.a[0].startswith('target')
                                                and contains(x, lambda y: y is t) for x in k.a[1]):
            noop = v
    if noop is True:
        return True
    if null is True and noop is False:
        return False
    if null is True:
        return 'maybe-noop'
    return None


def rule_effects(ctx, g):
    """an effect runs once, in its own turn after the reduction (and publication), with the store's context"""
    it = g.it
    for f, s, v, h in each(ctx, g):
        null = [e for i, e in h.events() if e.kind == 'nullcall']
        ctx.ob('empty-effect-runs-nothing', g.label(f) + ' null', not null, 'an empty effect is called',
               null[0].where if null else '', tr(g, h))
        if skip(h):
            continue
        what = g.label(f)
        auto, fut = g.kind(f)
        rs = [i for i, e in h.events() if is_reducer(e)]
        es = [(i, e) for i, e in h.events() if is_effect(e)]
        emp = emptiness(g, f, h)
        if emp is True:
            ctx.ob('empty-effect-runs-nothing', what, not es, 'an effect is executed although the reducer returned none',
                   es[0][1].where if es else where(h), tr(g, h))
            continue
        if emp is None:
            ctx.ob('empty-effect-runs-nothing', what, not es, 'an effect is executed without checking whether it is empty',
                   es[0][1].where if es else where(h), tr(g, h))
            if not es:
                ctx.ob('effect-runs-once', what, False, 'the effect is dropped without looking at it', where(h), tr(g, h))
            continue
        if emp == 'maybe-noop' and not es:
            continue
        if not ctx.ob('effect-runs-once', what, len(es) == 1, 'the effect is executed %d times' % len(es),
                      es[1][1].where if len(es) > 1 else where(h), tr(g, h)):
            continue
        i, e = es[0]
        t = effect_term(g, f, h)
        fv = e.vals[0] if e.vals else None
        ctx.ob('effect-runs-once', what + ' which', fv is t or (fv is not None and fv.k == 'r' and dict(fv.a[2]).get('B') is t),
               'what is executed is not the effect the reducer returned', e.where, tr(g, h))
        ctx.ob('effect-in-later-turn', what, bool(rs) and i[0] > rs[0][0], 'the effect is executed in the turn of the reduction',
               e.where, tr(g, h))
        loc = current_loc(g, f)
        res = [it.field(x.res, 'e0') for j, x in h.events() if is_reducer(x)]
        fin = last_write(h, loc, rs[0])
        wr = [j for j, x in model_writes(h, loc)]
        ctx.ob('effect-after-model', what, fact_eq(h, res[0], fin if fin is not None else latest(rs[0][0]))
               and not any(j > i for j in wr),
               'the effect runs before the model it belongs to is stored', e.where, tr(g, h))
        a = e.args[0] if e.args else None
        ok = a is not None and is_ctx(g, f, a, e)
        ctx.ob('effect-gets-context', what, ok, 'the effect is not given the store\'s context but %s' % (show(a, 4) if a is not None else 'nothing'),
               e.where, tr(g, h))
        if auto:
            pub = published_before(h, i)
            ctx.ob('effect-after-publication', what, pub, 'the effect runs before the model is published and watchers are notified',
                   e.where, tr(g, h))
    ctx.absorb(g.it)


def ctx_fields(g, f):
    return [x['id'] for x in g.P.all_fields(f['rec']) if g.P.isrec(x['t']) and g.P.rec_of_type(x['t'])['bname'] == 'lager::context']


def is_ctx(g, f, a, e):
    fs = ctx_fields(g, f)
    if a.k == 'p' and a.a[0] == ('o', 'self') and len(a.a[1]) >= 1 and a.a[1][0] in fs:
        return True
    v = e.vals[1] if len(e.vals) > 1 else None
    if v is None:
        return False
    if v.k == 'r':
        # a copy or conversion of the context: every part comes from the matching part
        own = lambda y: y.k == 'f' and y.a[0].k == 'f' and y.a[0].a[1] in fs
        return all(contains(g.it.field(v, x['id']), own) for x in g.P.all_fields(v.a[0]))
    return v.k == 'f' and v.a[1] in fs


def published_before(h, i):
    rs = [j for j, e in h.events() if is_reducer(e)]
    sd = [j for j, e in h.events() if is_send(e) and j < i and j[0] > rs[0][0]]
    no = [j for j, e in h.events() if is_notify(e) and j < i and j[0] > rs[0][0]]
    # or in the reducing turn after the model was stored
    sd += [j for j, e in h.events() if is_send(e) and j < i and rs[0] < j and j[0] == rs[0][0]]
    no += [j for j, e in h.events() if is_notify(e) and j < i and rs[0] < j and j[0] == rs[0][0]]
    return bool(sd) and bool(no) and min(sd) < max(no)


def rule_publish(ctx, g):
    """automatic: every action is followed by publishing and then notifying; transactional: never"""
    for f, s, v, h in each(ctx, g):
        if skip(h):
            continue
        what = g.label(f)
        auto, fut = g.kind(f)
        sd = [(i, e) for i, e in h.events() if is_send(e)]
        no = [(i, e) for i, e in h.events() if is_notify(e)]
        if not auto:
            bad = sd + no
            ctx.ob('transactional-stays-pending', what, not bad, 'a transactional store publishes or notifies on its own',
                   bad[0][1].where if bad else '', tr(g, h))
            continue
        rs = [i for i, e in h.events() if is_reducer(e)]
        loc = current_loc(g, f)
        st = [i for i, e in h.events() if e.kind == 'W' and e.this.k == 'p' and e.this.a[0] == ('o', 'self')
              and e.this.a[1][:len(loc)] == tuple(loc)]
        # the reducing turn ends with the model stored; publication must follow the store
        last = max(st) if st else (rs[0] if rs else (0, 0))
        after = [i for i, e in sd if i > last]
        ctx.ob('automatic-publishes', what, bool(after), 'the new model is not published', where(h), tr(g, h))
        ok = bool(no) and (not sd or max(i for i, e in no) > max(i for i, e in sd))
        ctx.ob('automatic-notifies', what, ok, 'watchers are not notified after publishing', where(h), tr(g, h))
        early = [e for i, e in no if not any(j < i for j, _ in sd)]
        ctx.ob('automatic-notifies', what + ' order', not early, 'watchers are notified before the model is published',
               early[0].where if early else '', tr(g, h))
        on = [e for i, e in sd + no if e.this is not P(('o', 'self'))]
        ctx.ob('automatic-publishes', what + ' node', not on, 'another node is published', on[0].where if on else '', tr(g, h))
    ctx.absorb(g.it)


def rule_futures(ctx, g):
    """the returned future is completed exactly once, after reduction, publication and effect"""
    it = g.it
    for f, s, v, h in each(ctx, g):
        if skip(h):
            continue
        what = g.label(f)
        auto, fut = g.kind(f)
        ps = [(i, e) for i, e in h.events() if is_complete(e)]
        ts = [(i, e) for i, e in h.events() if is_then(e)]
        made = [e for i, e in h.events() if e.name == 'lager::promise::with_loop']
        if it.P.isref(f['ret']):
            v2 = it.load(s, v)
        else:
            v2 = v
        state = state_of(it, v2, 'lager::future')
        w = where(h)
        if not fut:
            ctx.ob('nothing-completed-without-futures', what, not ps and not ts and not made,
                   'a promise is completed in a store without futures', (ps + ts)[0][1].where if ps + ts else w, tr(g, h))
            ctx.ob('nothing-completed-without-futures', what + ' result', state is NULL,
                   'dispatch returns a future that nobody completes', w, tr(g, h))
            continue
        ok = len(made) == 1 and state is not None and state is state_of(it, it.field(made[0].res, 'e1'), 'lager::future')
        if not ctx.ob('returns-its-future', what, ok, 'dispatch does not return the future of the promise it completes', w, tr(g, h)):
            continue
        ctx.ob('promise-uses-store-loop', what, made[0].args[0].k == 'p' and made[0].args[0].a[0] == ('o', 'self'),
               'the promise is bound to another event loop', made[0].where, tr(g, h))
        mine = state_of(it, it.field(made[0].res, 'e0'))
        comp = [(i, e) for i, e in ps if state_of(it, e.vals[0]) is mine]
        chained = [(i, e) for i, e in ts if state_of(it, e.vals[1]) is mine]
        other = [e for i, e in ps if state_of(it, e.vals[0]) is not mine]
        ctx.ob('completed-once', what + ' other', not other, 'something else than the promise of this dispatch is completed',
               other[0].where if other else '', tr(g, h))
        n = len(comp) + len(chained)
        if not ctx.ob('completed-once', what, n == 1, 'the future of a dispatch is completed %d times' % n,
                      (comp + chained)[1][1].where if n > 1 else w, tr(g, h)):
            continue
        i, e = (comp + chained)[0]
        rs = [j for j, x in h.events() if is_reducer(x)]
        ctx.ob('completed-after-reduction', what, bool(rs) and rs[0] < i, 'the future completes before the reduction', e.where, tr(g, h))
        es = [(j, x) for j, x in h.events() if is_effect(x)]
        for j, x in es:
            ctx.ob('completed-after-effect', what, j < i, 'the future completes before the effect has run', e.where, tr(g, h))
            if returns_future(g, f, x):
                ctx.ob('completed-after-effect-future', what, bool(chained) and e.vals[0] is x.res,
                       'the future does not wait for the future of the effect', e.where, tr(g, h))
            else:
                ctx.ob('completed-after-effect', what + ' void', bool(comp), 'completion waits for something else than the effect',
                       e.where, tr(g, h))
        if not es:
            ctx.ob('completed-once', what + ' direct', bool(comp), 'completion without an effect waits for something', e.where, tr(g, h))
        if auto:
            ctx.ob('completed-after-publication', what, published_before(h, i),
                   'the future completes before the model is published', e.where, tr(g, h))
        else:
            loc = current_loc(g, f)
            pass
    ctx.absorb(it)


def returns_future(g, f, e):
    return e.name != 'W::VoidEff::operator()'


def state_fields(it):
    """shared state field of lager::future and lager::promise"""
    if not hasattr(it, '_statef'):
        d = {}
        for r in it.P.records:
            if r['bname'] in ('lager::future', 'lager::promise') and r.get('def'):
                for x in r.get('fields', ()):
                    if it.P.isrec(x['t']) and 'promise_state' in it.P.tname(x['t']):
                        d[r['bname']] = x['id']
        if len(d) != 2:
            raise kit.Broken('shared state of future/promise not found')
        it._statef = d
    return it._statef


def state_of(it, v, cls='lager::promise'):
    if v is None:
        return None
    return it.field(v, state_fields(it)[cls])

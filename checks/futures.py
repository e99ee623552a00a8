"""Typestate of the state shared by a promise and its future.

promise::operator() and future::then are abstractly executed from an arbitrary shared state; what they
post is executed as a later turn.  Whether the promise is completed before or after attaching is the
fact on the shared done flag, so every order of the two sides is one abstract path.
"""
from engine import kit
from engine.interp import *
from engine.pairs import run_fn

PROMISE = 'lager::promise::operator()'
THEN = 'lager::future::then'


class Futures:
    def __init__(self, ctx, flags=()):
        self.ctx = ctx
        self.P = P_ = kit.export('future.cpp', flags=flags)
        self.it = it = Interp(P_)
        self.fns = {f['short']: f for f in P_.fnrefs.values() if f['bname'].startswith('W::') and f['id'] in P_.functions}
        rs = [r for r in P_.records if r['bname'] == 'lager::detail::promise_state' and r.get('def')]
        self.hold = {}
        for c in ('lager::future', 'lager::promise'):
            for r in P_.records:
                if r['bname'] == c and r.get('def'):
                    fs = [x for x in r.get('fields', ()) if 'promise_state' in P_.tname(x['t'])]
                    if len(fs) == 1:
                        self.hold[c] = (r['i'], fs[0]['id'])
        if len(rs) != 1 or len(self.hold) != 2:
            raise kit.Broken('the state shared by promise and future was not found')
        self.rec = rs[0]
        T = lambda x: P_.tname(x['t'])
        self.mutex = [x['id'] for x in self.rec['fields'] if 'mutex' in T(x)]
        fl = [x['id'] for x in self.rec['fields'] if T(x) in ('bool', '_Bool', 'std::atomic<bool>')]
        fn = [x for x in self.rec['fields'] if T(x).startswith('std::function<')]
        cb = [x['id'] for x in fn if T(x) == 'std::function<void ()>' or T(x) == 'std::function<void()>']
        post = [x['id'] for x in fn if x['id'] not in cb]
        if len(self.mutex) != 1 or len(fl) != 1 or len(cb) != 1 or len(post) != 1:
            raise kit.Broken('the layout of the state shared by promise and future is not understood')
        self.done, self.cb, self.post = fl[0], cb[0], post[0]
        it.watch = {x['id'] for x in self.rec['fields']}
        self.st_done = S_FIELD(S('st'), self.done)
        self.st_cb = S_FIELD(S('st'), self.cb)
        self.st_post = S_FIELD(S('st'), self.post)

    def value(self, cls, ptr):
        rec, fld = self.hold[cls]
        return REC(rec, None, {fld: ptr})

    def state_of(self, v, cls):
        return self.it.field(v, self.hold[cls][1])

    def run(self, name, ptr, opaque=(), extra=None):
        f = self.fns.get(name)
        if f is None:
            raise kit.Broken('witness %s not instantiated' % name)
        self.it.opaque = lambda q: q['bname'] in opaque
        st = St()
        st.mem[('o', 'st')] = REC(self.rec['i'], S('st'), {})
        st.mem[('o', 'st2')] = REC(self.rec['i'], S('st2'), {})
        args = []
        for i, p in enumerate(f['params']):
            v = S('arg%d' % i)
            if self.P.rec_of_type(p['t']) is not None:
                n = self.P.rec_of_type(p['t'])['bname']
                if n in self.hold:
                    v = self.value(n, ptr if not any(True for a in args if a.k == 'r') else P(('o', 'st2')))
            if self.P.isref(p['t']):
                st.mem[('o', 'r%d' % i)] = v
                v = P(('o', 'r%d' % i))
            args.append(v)
        fr = Frame(self.it.fid(0, 'top'), None, None, None, 0, None)
        rs = self.it.call(f, None, args, st, fr, ('run', f['id']), '?')
        self.ctx.paths += len(rs)
        return rs

    def later(self, closure, s, opaque=(PROMISE, THEN), sid='later', args=()):
        """executes a posted or stored closure as a later turn"""
        self.it.opaque = lambda q: q['bname'] in opaque
        s2 = s.copy()
        s2.trace = None
        rs = self.it.call_closure(closure, list(args), s2, sid=sid)
        self.ctx.paths += len(rs)
        return rs


def S_FIELD(v, k):
    return mk('f', v, k)


def T(g, s):
    return kit.trace_lines(g.it, s)


def posts(g, s, what):
    return [e for e in s.events() if e.kind == 'invoke' and e.vals and e.vals[0] is what]


def first_where(s):
    return next((e.where for e in s.events() if e.where.startswith(kit.REPO)), '')


def is_fn(e):
    return e.kind == 'call' and e.name == 'W::Fn::operator()'


def rule_complete(ctx, g):
    """promise(): posts the attached continuation exactly once, and leaves the promise done"""
    for s, v in g.run('complete', P(('o', 'st'))):
        if s.exc is not None:
            continue
        d, c = s.facts.get(g.st_done), s.facts.get(g.st_cb)
        ps = posts(g, s, g.st_post)
        w = ps[0].where if ps else first_where(s)
        direct = [e for e in s.events() if e.kind == 'invoke' and e.vals and contains(e.vals[0], lambda y: y is g.st_cb)]
        ctx.ob('continuation-through-the-loop', 'promise()', not direct, 'the continuation is called by whoever completes the promise',
               direct[0].where if direct else '', T(g, s))
        case = 'done' if d else 'pending' if d is False else 'any'
        case += ', continuation attached' if c else ', none attached' if c is False else ''
        if d and c:
            continue        # a continuation is never kept once done
        if c:
            if ctx.ob('runs-once', 'promise() ' + case, len(ps) == 1, 'the attached continuation is posted %d times' % len(ps), w, T(g, s)):
                q = ps[0].vals[1] if len(ps[0].vals) > 1 else None
                n = 0
                if q is g.st_cb:
                    n = 1
                elif q is not None:
                    for s2, _ in g.later(q, s):
                        k = [e for e in s2.events() if e.kind in ('invoke', 'nullcall')]
                        good = [e for e in k if e.vals and e.vals[0] is g.st_cb]
                        n = len(good) if len(good) == len(k) else -1
                        um = [e for e in s2.events() if e.kind in ('usemoved', 'nullcall')]
                        if um:
                            n = -1
                ctx.ob('runs-once', 'posted by promise() ' + case, n == 1, 'what is posted does not call the continuation exactly once',
                       w, T(g, s))
        else:
            ctx.ob('runs-once', 'promise() ' + case, not ps, 'something is posted although no continuation is known to be attached', w, T(g, s))
            if c is None and not d:
                ctx.ob('runs-once', 'promise() ' + case, False, 'the attached continuation is not looked at', w, T(g, s))
        fin = g.it.read(s, (('o', 'st'), (g.done,)))
        ctx.ob('completes', 'promise() ' + case, (isc(fin) and fin.a[0]) or (d and fin is g.st_done),
               'the shared state is not marked as done: a continuation attached later never runs', w, T(g, s))
        # a copy of the promise completing again
        g.it.opaque = lambda q: False
        s3 = s.copy()
        s3.trace = None
        f = g.fns['complete']
        s3.mem[('o', 'r0')] = g.value('lager::promise', P(('o', 'st')))
        fr = Frame(g.it.fid(0, 'top2'), None, None, None, 0, None)
        for s4, _ in g.it.call(f, None, [P(('o', 'r0'))], s3, fr, ('again', f['id']), '?'):
            again = [e for e in s4.events() if e.kind == 'invoke']
            ctx.ob('runs-once', 'promise() twice, ' + case, not again, 'completing twice runs the continuation twice',
                   again[0].where if again else '', T(g, s4))


def dangling(g, v):
    """a captured reference to a local of the function that has returned"""
    return contains(v, lambda y: isinstance(y, V) and y.k == 'p' and y.a[0][0] in ('v', 't'))


def rule_then(ctx, g):
    it = g.it
    for name, ret in (('then_void', 'void'), ('then_void_rv', 'void'), ('then_fut', 'future')):
        # an empty future runs the continuation at once
        for s, v in g.run(name, NULL, (PROMISE,)):
            if s.exc is not None:
                continue
            cs = [e for e in s.events() if is_fn(e)]
            ctx.ob('empty-runs-at-once', name, len(cs) == 1, 'a continuation of an empty future runs %d times' % len(cs),
                   first_where(s), T(g, s))
            if len(cs) == 1 and ret == 'future':
                ctx.ob('empty-runs-at-once', name + ' result', v is cs[0].res, 'the future of the continuation is not returned',
                       cs[0].where, T(g, s))
            if ret == 'void':
                ctx.ob('empty-runs-at-once', name + ' result', g.state_of(v, 'lager::future') is NULL,
                       'a future that never completes is returned', first_where(s), T(g, s))
            nd = [e for e in s.events() if e.kind == 'nullderef']
            ctx.ob('empty-runs-at-once', name + ' null', not nd, 'an empty future is dereferenced', nd[0].where if nd else '', T(g, s))
        for s, v in g.run(name, P(('o', 'st')), (PROMISE,)):
            if s.exc is not None:
                continue
            evs = s.events()
            d = s.facts.get(g.st_done)
            ps = posts(g, s, g.st_post)
            w = ps[0].where if ps else first_where(s)
            cs = [e for e in evs if is_fn(e)]
            case = '%s, %s' % (name, 'already done' if d else 'still pending' if d is False else 'without looking')
            ctx.ob('continuation-through-the-loop', case, not cs, 'the continuation is run by whoever attaches it', cs[0].where if cs else '', T(g, s))
            fin = it.read(s, (('o', 'st'), (g.cb,)))
            stored = fin is not g.st_cb and not isc(fin)
            flag = it.read(s, (('o', 'st'), (g.done,)))
            ctx.ob('then-does-not-complete', case, flag is g.st_done or d and isc(flag), 'attaching changes whether the promise is done', w, T(g, s))
            if d is None:
                ctx.ob('runs-once', case, False, 'whether the promise is already done is not looked at', w, T(g, s))
                continue
            if d:
                ok = len(ps) == 1 and not stored
                closure = ps[0].vals[1] if len(ps) == 1 and len(ps[0].vals) > 1 else None
                msg = 'the promise is done: the continuation is posted %d times%s' % (len(ps), ' and kept' if stored else '')
            else:
                ok = not ps and stored
                closure = fin
                msg = 'the promise is pending: the continuation is posted %d times and %s' % (len(ps), 'kept' if stored else 'not kept')
            if not ctx.ob('runs-once', case, ok, msg, w, T(g, s)) or closure is None:
                continue
            ctx.ob('no-dangling-capture', case, not dangling(g, closure), 'the continuation captures a local by reference', w, T(g, s))
            mine = g.state_of(v, 'lager::future')
            ok = mine is not None and mine.k == 'p' and mine is not P(('o', 'st')) and mine.a[0][0] == 'h'
            if not ctx.ob('returns-next-future', case, ok, 'the future returned is not that of a fresh promise (%s)' % show(mine, 3), w, T(g, s)):
                continue
            np = it.read(s, (mine.a[0], mine.a[1] + (g.post,)))
            ctx.ob('same-loop', case, np is g.st_post, 'the next future does not use the event loop of the promise', w, T(g, s))
            for s2, _ in g.later(closure, s):
                if s2.exc is not None:
                    continue
                ev2 = s2.events()
                w2 = first_where(s2)
                fs = [i for i, e in enumerate(ev2) if is_fn(e)]
                if not ctx.ob('runs-once', case + ', posted work', len(fs) == 1, 'the continuation runs %d times' % len(fs), w2, T(g, s2)):
                    continue
                fv = ev2[fs[0]]
                ctx.ob('runs-once', case + ', which', fv.vals[0] is S('arg1'), 'another continuation runs: %s' % show(fv.vals[0], 3), fv.where, T(g, s2))
                comp = [i for i, e in enumerate(ev2) if e.kind == 'call' and e.name == PROMISE]
                chain = [i for i, e in enumerate(ev2) if e.kind == 'call' and e.name == THEN]
                if ret == 'void':
                    ok = len(comp) == 1 and not chain and comp[0] > fs[0] and g.state_of(ev2[comp[0]].vals[0], 'lager::promise') is mine
                    msg = 'the next future is completed %d times' % len(comp) if len(comp) != 1 else \
                        'the next future is completed before the continuation ran' if comp[0] < fs[0] else 'another promise is completed'
                else:
                    # every path ends in chaining the next promise to the future of the continuation
                    ok = len(chain) == 1 and not comp and ev2[chain[0]].vals[0] is fv.res and \
                        g.state_of(ev2[chain[0]].vals[1], 'lager::promise') is mine
                    msg = 'the next future does not wait for the future the continuation returns'
                ctx.ob('completes-after', case, ok, msg, ev2[(comp + chain or fs)[0]].where, T(g, s2))
                um = [e for e in ev2 if e.kind == 'usemoved']
                ctx.ob('no-moved-values', case, not um, 'a moved-from value is used', um[0].where if um else '', T(g, s2))
    for s, v in g.run('then_promise', P(('o', 'st')), ()):
        um = [e for e in s.events() if e.kind == 'usemoved']
        ctx.ob('no-moved-values', 'then(promise)', not um, 'a moved-from value is used', um[0].where if um else '', T(g, s))


def rule_make(ctx, g):
    it = g.it
    for name in ('with_post', 'with_loop'):
        rs = g.run(name, NULL)
        if name == 'with_loop':
            f = g.fns[name]
        for s, v in rs:
            a = g.state_of(it.field(v, 'e0'), 'lager::promise')
            b = g.state_of(it.field(v, 'e1'), 'lager::future')
            w = first_where(s)
            ok = a is b and a.k == 'p' and a.a[0][0] == 'h'
            if not ctx.ob('promise-and-future-paired', name, ok, 'the promise and its future do not share one fresh state', w, T(g, s)):
                continue
            rd = lambda k: it.read(s, (a.a[0], a.a[1] + (k,)))
            ctx.ob('starts-pending', name, isc(rd(g.done)) and not rd(g.done).a[0], 'a new promise is already done', w, T(g, s))
            p = rd(g.post)
            if name == 'with_post':
                ctx.ob('continuation-through-the-loop', name, p is S('arg0'), 'the promise does not post through the function given', w, T(g, s))
            else:
                for s2, _ in g.later(p, s, args=(S('work'),), sid='post'):
                    e = [x for x in s2.events() if x.kind == 'call' and x.name == 'W::Loop::post']
                    ok = len(e) == 1 and e[0].this is P(('o', 'r0')) and len(e[0].vals) > 1 and contains(e[0].vals[1], lambda y: y is S('work'))
                    ctx.ob('continuation-through-the-loop', name, ok, 'posting a continuation does not post it to the event loop once',
                           w, T(g, s2))
    for s, v in g.run('invalid', NULL):
        a = g.state_of(it.field(v, 'e0'), 'lager::promise')
        b = g.state_of(it.field(v, 'e1'), 'lager::future')
        ctx.ob('empty-runs-at-once', 'invalid()', a is NULL and b is NULL, 'an invalid promise is not empty', first_where(s), T(g, s))


def rule_also(ctx, g):
    it = g.it
    for s, v in g.run('also', P(('o', 'st')), (THEN, PROMISE)):
        e = [x for x in s.events() if x.kind == 'call' and x.name == THEN]
        w = e[0].where if e else first_where(s)
        sts = {P(('o', 'st')): P(('o', 'st2')), P(('o', 'st2')): P(('o', 'st'))}
        on = g.state_of(e[0].vals[0], 'lager::future') if e else None
        if not ctx.ob('also-waits-for-both', 'also', len(e) == 1 and on in sts and v is e[0].res,
                      'also() does not return what follows one of the two futures', w, T(g, s)):
            continue
        for s2, r in g.later(e[0].vals[1], s):
            ctx.ob('also-waits-for-both', 'also, then', g.state_of(r, 'lager::future') is sts[on],
                   'also() does not wait for the other future', w, T(g, s2))


def rule_locked(ctx, g):
    """fields of the shared state that change after construction are only accessed under its lock"""
    it = g.it
    runs = []
    for name in ('complete', 'then_void', 'then_fut', 'then_promise', 'also'):
        for s, v in g.run(name, P(('o', 'st'))):
            runs.append((name, s))
    base = (('o', 'st'), ())
    names = {x['id']: x['name'] for x in g.rec['fields']}
    mutable = set()
    for name, s in runs:
        for x in g.rec['fields']:
            if x['id'] not in g.mutex and it.read(s, (('o', 'st'), (x['id'],))) is not S_FIELD(S('st'), x['id']):
                mutable.add(x['id'])
    ctx.note('fields of the shared state that change: %s' % ', '.join(sorted(names[x] for x in mutable)))
    m = P(('o', 'st'), (g.mutex[0],))
    for name, s in runs:
        for e in s.events():
            if e.kind == 'M' and e.this.k == 'p' and e.this.a[0] == ('o', 'st') and e.this.a[1] and e.this.a[1][0] in mutable:
                ctx.ob('under-lock', '%s %s' % (name, e.name), m in e.ctx, '%s is accessed without the lock of the shared state' % e.name,
                       e.where, T(g, s))
            if is_fn(e):
                ctx.ob('no-user-code-under-lock', name, m not in e.ctx, 'a continuation runs while the lock is held', e.where, T(g, s))
        acc = [i for i, e in enumerate(s.events()) if e.kind == 'M' and e.this.k == 'p' and e.this.a[0] == ('o', 'st')
               and e.this.a[1] and e.this.a[1][0] in mutable]
        cut = [e for i, e in enumerate(s.events()) if acc and acc[0] < i < acc[-1] and e.kind == 'unlock' and e.this is m]
        ctx.ob('one-critical-section', name, not cut, 'the lock is released between looking at the shared state and changing it',
               cut[0].where if cut else '', T(g, s))
        ctx.ob('lock-released', name, m not in s.held, 'the lock of the shared state is kept', first_where(s), T(g, s))
    ctx.absorb(it)

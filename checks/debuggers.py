"""Debuggers: every kind of step on an arbitrary debugger model, compared with what the step is defined to do."""
from engine import kit
from engine.interp import *
from engine.pairs import run_fn
from engine.models import unB, unwrapfn
from engine.zone import Zone
from checks.lenses import same
from checks.effects import then_later

REDUCERS = ('plain', 'effect', 'result')


class Linear:
    witness, cls, kind = 'debug.cpp', 'lager::debugger<', 'linear'
    fields = ('cursor', 'paused', 'init', 'history', 'pending')
    recorded = ('init', 'history', 'pending')
    past = 'history'        # what was recorded so far

    def __init__(self, ctx):
        self.ctx = ctx
        self.P = kit.export(self.witness, follow=['ctor:pair', 'accumulate', 'immer::accumulate', 'immer::for_each',
                                                  'immer::accumulate_move'])
        self.it = Interp(self.P)
        self.it.hook = then_later
        self.fns = {f['short']: f for f in self.P.fnrefs.values() if f['id'] in self.P.functions and
                    self.P.loc(f.get('loc')).startswith(kit.VERIF)}
        self.rec = self.record(self.cls, '::model')
        self.f = {x['name']: x['id'] for x in self.rec['fields']}
        for n in self.fields:
            if n not in self.f:
                raise kit.Broken('the debugger has no field ' + n)
        st = self.record(self.cls, '::step')
        self.sf = {x['name']: x['id'] for x in st['fields']}
        go = self.record(self.cls, '::goto_action')
        self.gof = {x['name']: x['id'] for x in go['fields']}

    def record(self, pre, suf):
        for r in (self.P.records.values() if isinstance(self.P.records, dict) else self.P.records):
            if r['full'].startswith(pre) and r['full'].endswith(suf):
                return r
        raise kit.Broken('no %s...%s' % (pre, suf))

    def get(self, v, name):
        return self.it.field(v, self.f[name])

    def steps(self, kind):
        """-> name of the reducer kind, paths of one step of that kind"""
        for r in REDUCERS:
            f = self.fns.get('%s_%s_%s' % (kind, self.kind, r))
            if f is None:
                raise kit.Broken('no step ' + kind)
            rs = run_fn(self.it, f)
            self.ctx.paths += len(rs)
            if not rs:
                raise kit.Broken('no path through a step ' + kind)
            out = []
            for st, v in rs:
                p = self.path(st, v)
                if p.z.impossible() or self.excluded(p):
                    continue
                out.append(p)
            yield r, f, out

    def path(self, st, v):
        return Path(self, st, v)

    def excluded(self, p):
        return False

    def at_position(self, p, m, c, h):
        """the model recorded at position c"""
        if p.z.proves(c, C(0)):
            return self.get(m, 'init') if m is not None else self.get(p.m, 'init')
        if p.z.proves(C(1), c):
            return self.it.field(self.it.field(h, ('i', self.it.add(c, -1))), self.sf['model'])
        return None

    def appended(self, p, h, h0, c0, act, model):
        """is h the history h0 up to position c0 followed by that action and model?"""
        if not (h.k == 'a' and h.a[0] == 'push'):
            return 'does not end in a new entry: %s' % show(h, 5)
        base, entry = h.a[1]
        whole = base.k != 'a' and p.same(base, h0) and p.z.proves(self.it.size(h0), c0)
        part = base.k == 'a' and base.a[0] == 'take' and p.same(base.a[1][0], h0) and p.z.equal(base.a[1][1], c0)
        if not (whole or part):
            return 'keeps %s of the history instead of the entries up to the position' % show(base, 5)
        return self.entry(p, entry, act, model)

    def entry(self, p, entry, act, model):
        f = self.it.field
        if not p.same(f(entry, self.sf['action']), act):
            return 'records the action %s' % show(f(entry, self.sf['action']), 5)
        if not p.same(f(entry, self.sf['model']), model):
            return 'records the model %s instead of %s' % (show(f(entry, self.sf['model']), 6), show(model, 6))
        return None

    def newest(self, p, c, h, h0, c0, act, model):
        """is c the position of the entry just added (h the history with it)?"""
        return countlike(c) and c.k != 'p' and p.z.equal(c, self.it.size(h))

    def recording(self, b):
        return b.k == 'a' and b.a[0] in ('push', 'take')


class Path:
    """one path of a step: what is known about positions and sizes on it"""

    def __init__(self, d, st, v, args=(S('arg1'),)):
        self.d, self.st, self.v = d, st, v
        self.z = Zone(d.it, st.facts)
        m = S('arg1')
        self.m = m
        # a debugger model is consistent to begin with
        self.z.le(d.get(m, 'cursor'), d.it.size(d.get(m, 'history')))
        self.meta = {}
        self.loops = []
        for e in st.events():
            if e.kind == 'loophead':
                self.head(e)
        self.site = next((e.where for e in reversed(st.events()) if e.where.startswith(kit.REPO)), P_loc(d, st))

    def head(self, e):
        """the positions that stay within a container from one iteration to the next"""
        ms = e.ctx[3]
        for l1, a1, b1, v1 in ms:
            self.meta[v1] = (l1, a1, b1)
        sz = self.d.it.size
        for l1, a1, b1, v1 in ms:
            for l2, a2, b2, v2 in ms:
                if v1 is not v2 and countlike(b1) and seqlike(b2) and self.z.proves(b1, sz(b2)) and self.z.proves(a1, sz(a2)):
                    self.z.le(v1, sz(v2))

    def res(self, name):
        return self.d.get(self.d.it.field(self.v, 'e0'), name)

    def same(self, a, b):
        return same(self.d.it, self.st, a, b)


def P_loc(d, st):
    return kit.REPO + '/lager/debug'


def countlike(v):
    return not (v.k == 'a' and v.a[0] in ('push', 'take', 'vec')) and v.k in 'cafs' or v.k == 'lv'


def seqlike(v):
    return v.k in 'fs' or v.k == 'lv' or v.k == 'a' and v.a[0] in ('push', 'take', 'vec')


def trace(d, p):
    return kit.trace_lines(d.it, p.st)


def reducer_calls(p, after=None):
    return [e for e in p.st.events() if e.kind == 'call' and e.name == 'W::Fn::operator()']


def unchanged(ctx, d, p, rule, what, names):
    for n in names:
        ctx.ob(rule, '%s of %s' % (n, what), p.same(p.res(n), d.get(p.m, n)),
               'changes the %s: %s' % (n, show(p.res(n), 5)), p.site, trace(d, p))


STEPS = ('act', 'goto', 'undo', 'redo', 'pause', 'resume')


# ---------------------------------------------------------------- C27
def rule_positions(ctx, d):
    it = d.it
    for kind in STEPS:
        for r, f, ps in d.steps(kind):
            what = '%s (%s reducer)' % (kind, r)
            for p in ps:
                tr = trace(d, p)
                for e in p.st.events():
                    if e.kind == 'index':
                        ok = p.z.proves(e.args[1], it.size(e.args[0]), -1) and p.z.proves(C(0), e.args[1])
                        ctx.ob('lookup-in-range', what, ok, 'looks up position %s of %s, which may be out of range' % (
                            show(e.args[1], 4), show(e.args[0], 4)), e.where, tr)
                ctx.ob('no-valid-position-refused', what, p.st.exc is None, 'throws although the position is valid', p.site, tr)
                if p.st.exc is not None:
                    continue
                c, h = p.res('cursor'), p.res(d.past)
                ctx.ob('position-in-history', what, p.z.proves(c, it.size(h)),
                       'position %s may be beyond the history %s' % (show(c, 4), show(h, 4)), p.site, tr)
                ctx.ob('position-not-negative', what, p.z.proves(C(0), c), 'position %s may wrap below zero' % show(c, 4), p.site, tr)
                c0, n = d.get(p.m, 'cursor'), it.size(d.get(p.m, d.past))
                if kind == 'undo':
                    ok = p.z.given(c0, C(0)).equal(c, c0) and p.z.given(C(1), c0).equal(c, it.add(c0, -1))
                elif kind == 'redo':
                    ok = p.z.given(n, c0).equal(c, c0) and p.z.given(c0, n, -1).equal(c, it.add(c0, 1))
                elif kind == 'goto':
                    t = it.field(S('arg2'), d.gof['cursor'])
                    ok = p.z.given(t, n).equal(c, t) and p.z.given(n, t, -1).equal(c, c0)
                else:
                    continue
                ctx.ob('moves-to-the-right-position', what, ok, 'from %s goes to %s' % (show(c0, 4), show(c, 4)), p.site, tr)
    # looking up any position
    f = d.fns['lookup_linear']
    for st, v in run_fn(it, f):
        p = Path(d, st, v)
        z = Zone(it, st.facts)
        m = S('arg0')
        c, h = S('arg1'), d.get(m, 'history')
        if z.impossible():
            continue
        tr = kit.trace_lines(it, st)
        site = p.site
        for e in st.events():
            if e.kind == 'index':
                ok = z.proves(e.args[1], it.size(e.args[0]), -1) and z.proves(C(0), e.args[1])
                ctx.ob('lookup-in-range', 'lookup of any position', ok, 'looks up position %s, which may be out of range' % show(e.args[1], 4),
                       e.where, tr)
        if st.exc is not None:
            ctx.ob('no-valid-position-refused', 'lookup of any position', z.proves(it.size(h), c, -1),
                   'throws although the position may be valid', site, tr)
            continue
        ctx.ob('invalid-position-refused', 'lookup of any position', z.proves(c, it.size(h)), 'accepts a position beyond the history', site, tr)
    f = d.fns['initial_linear']
    for st, v in run_fn(it, f):
        tr = kit.trace_lines(it, st)
        z = Zone(it, st.facts)
        ok = st.exc is None and z.proves(d.get(v, 'cursor'), it.size(d.get(v, 'history')))
        ctx.ob('initial-position', 'a new debugger', ok, 'starts at position %s of %s' % (show(d.get(v, 'cursor')), show(d.get(v, 'history'))),
               P_loc(d, st), tr)
    ctx.absorb(it)


# ---------------------------------------------------------------- C28, C29
def result_model(r, call):
    """what the reducer's result says the next model is"""
    return call.res if r == 'plain' else d_field(call.res, 'e0')


def d_field(v, k):
    return mk('f', v, k)


def run_effect(d, p, eff):
    """-> what a run of the effect does: paths with the loop operations and effects run"""
    out = []
    st = p.st.copy()
    n0 = len(list(st.events()))
    for s, v in d.it.call_closure(eff, [P(('o', 'ctx'))], st, sid=('effect', p.st.trace is None)):
        ops = []
        for e in list(s.events())[n0:]:
            if e.kind in ('vcall', 'call') and e.name.rsplit('::', 1)[-1] in ('pause', 'resume', 'finish', 'post', 'async') and \
                    ('event_loop_iface' in e.name):
                ops.append((e.name.rsplit('::', 1)[-1], e))
            elif e.kind == 'invoke':
                ops.append((unwrapfn(unB(e.vals[0])), e))
            elif e.kind == 'nullcall':
                ops.append(('nothing to call', e))
        out.append((s, ops))
    return out


def empty_effect(st, v):
    """is v known to be an effect that does nothing?"""
    if st.facts.get(v) is False:
        return True
    for k, b in st.facts.items():
        if b and k.k == 'a':
            ts = [k] if str(k.a[0]).startswith('target') else \
                [x for x in k.a[1] if k.a[0] == '==' and x.k == 'a' and str(x.a[0]).startswith('target')]
            if any(contains(t, lambda y: y is v) for t in ts):
                return True
    return False


def rule_travel(ctx, d):
    it = d.it
    for kind in ('undo', 'redo', 'goto', 'pause'):
        for r, f, ps in d.steps(kind):
            what = '%s (%s reducer)' % (kind, r)
            for p in ps:
                tr = trace(d, p)
                cs = reducer_calls(p)
                ctx.ob('never-runs-the-reducer', what, not cs, 'calls the reducer', cs[0].where if cs else p.site, tr)
                if p.st.exc is not None:
                    continue
                unchanged(ctx, d, p, 'keeps-what-was-recorded', what, d.recorded + (() if kind == 'pause' else ('paused',)))
                if kind == 'pause':
                    ctx.ob('keeps-the-position', what, p.z.equal(p.res('cursor'), d.get(p.m, 'cursor')) or p.same(p.res('cursor'), d.get(p.m, 'cursor')), 'moves the position', p.site, tr)
                    continue
                for s, ops in run_effect(d, p, it.field(p.v, 'e1')):
                    ctx.ob('no-effects', what, not ops, 'has an effect: %s' % [o[0] for o in ops], p.site, kit.trace_lines(it, s))
    for r, f, ps in d.steps('act'):
        what = 'action (%s reducer)' % r
        n = 0
        for p in ps:
            if p.st.exc is not None or p.st.facts.get(d.get(p.m, 'paused')) is True:
                continue
            n += 1
            tr = trace(d, p)
            step(ctx, d, p, r, what, reducer_calls(p), S('arg2'), d.get(p.m, d.past), d.get(p.m, 'cursor'),
                 p.res(d.past), p.res('cursor'), p.site)
            unchanged(ctx, d, p, 'keeps-the-rest', what, ('init', 'paused', 'pending'))
            for s, ops in run_effect(d, p, it.field(p.v, 'e1')):
                scheduled(ctx, d, p, r, what, s, ops, reducer_calls(p), p.site)
        if not n:
            raise kit.Broken('no path takes an action')
    ctx.absorb(it)


def rule_shown(ctx, d):
    it = d.it
    # the model shown
    for st, v in run_fn(it, d.fns['current_linear']):
        p = Path(d, st, v)
        p.z = Zone(it, st.facts)
        m = S('arg0')
        c, h = d.get(m, 'cursor'), d.get(m, 'history')
        p.z.le(c, it.size(h))
        if p.z.impossible():
            continue
        tr = kit.trace_lines(it, st)
        if not ctx.ob('shows-the-recorded-model', 'current model', st.exc is None, 'throws', p.site, tr):
            continue
        want = d.at_position(p, m, c, h)
        got = it.load(st, v)
        ctx.ob('shows-the-recorded-model', 'current model', want is not None and p.same(got, want), 'shows %s instead of %s' % (
            show(got, 6), show(want, 6) if want is not None else '?'), p.site, tr)
    for st, v in run_fn(it, d.fns['lookup_linear']):
        p = Path(d, st, v)
        p.z = Zone(it, st.facts)
        if st.exc is not None or p.z.impossible():
            continue
        m = S('arg0')
        c, h = S('arg1'), d.get(m, 'history')
        want = d.at_position(p, m, c, h)
        ref = it.field(v, 'e1')
        got = it.load(st, ref)
        tr = kit.trace_lines(it, st)
        ctx.ob('shows-the-recorded-model', 'lookup', want is not None and p.same(got, want), 'finds %s instead of %s' % (
            show(got, 6), show(want, 6) if want is not None else '?'), p.site, tr)
        act = it.field(v, 'e0')
        if p.z.proves(c, C(0)):
            ok = isc(act) and act.a[0] is None
        else:
            wa = it.field(it.field(h, ('i', it.add(c, -1))), d.sf['action'])
            ok = act.k == 'a' and act.a[0] == 'some' and p.same(act.a[1][0], wa)
        ctx.ob('finds-the-recorded-action', 'lookup', ok, 'finds the action %s' % show(act, 6), p.site, tr)
    for st, v in run_fn(it, d.fns['initial_linear']):
        ctx.ob('starts-from-the-initial-model', 'a new debugger', same(it, st, d.get(v, 'init'), S('arg0')), 'starts from %s' % show(d.get(v, 'init')),
               P_loc(d, st), kit.trace_lines(it, st))
    ctx.absorb(it)


def step(ctx, d, p, r, what, calls, act, h0, c0, h, c, site):
    """one application action taken from history h0 at position c0"""
    it = d.it
    tr = trace(d, p)
    if not ctx.ob('reducer-called-once', what, len(calls) == 1, 'calls the reducer %d times' % len(calls), site, tr):
        return
    e = calls[0]
    want = d.at_position(p, None, c0, h0)
    ok = want is not None and p.same(e.vals[1], want)
    ctx.ob('reducer-gets-the-current-model', what, ok, 'the reducer gets the model %s instead of %s' % (
        show(e.vals[1], 6), show(want, 6) if want is not None else '?'), e.where, tr)
    ctx.ob('reducer-gets-the-action', what, p.same(e.vals[2], act), 'the reducer gets the action %s' % show(e.vals[2], 5), e.where, tr)
    why = d.appended(p, h, h0, c0, act, result_model(r, e))
    ctx.ob('records-the-step', what, why is None, why, site, tr)
    ctx.ob('moves-to-the-newest-entry', what, why is not None or d.newest(p, c, h, h0, c0, act, result_model(r, e)), 'ends at position %s' % show(c, 5), site, tr)


def scheduled(ctx, d, p, r, what, s, ops, calls, site, more=()):
    """the effects run are exactly those returned by the reducer calls (and the ones in `more`), in order"""
    want = list(more)
    if r != 'plain':
        want += [d_field(e.res, 'e1') for e in calls]
    got = [o for o, e in ops]
    tr = kit.trace_lines(d.it, s)
    i = 0
    for w in want:
        if i < len(got) and isinstance(got[i], V) and same(d.it, s, got[i], w):
            i += 1
        elif not empty_effect(s, w):
            ctx.ob('effect-scheduled-once', what, False, 'the effect %s is not run' % show(w, 6), site, tr)
            return
    ctx.ob('effect-scheduled-once', what, i == len(got), 'runs %s in excess' % (show(got[i], 6) if i < len(got) and isinstance(got[i], V) else got[i:]),
           site, tr)


# ---------------------------------------------------------------- C29
class Iter:
    """one pass of a loop on a path: the reducer calls in it and the loop variables after it"""

    def __init__(self):
        self.calls = []
        self.after = {}     # location -> (value on entry, value after, name from then on)


def passes(p):
    """-> (passes, how the loop ended) of the loop on a path"""
    out, cur, end, key, n = [], None, None, None, 0
    for e in p.st.events():
        if e.kind == 'loopiter' and (key is None or e.ctx[0::2][:2] == key):
            key = e.ctx[0::2][:2]
            cur = Iter()
            out.append(cur)
        elif e.kind == 'loophead' and key == (e.ctx[0], e.ctx[2]):
            cur.after = {loc: (a, b, l) for loc, a, b, l in e.ctx[3]}
            cur = None
        elif e.kind == 'loopexit' and (key is None or key == (e.ctx[0], e.ctx[2])):
            end = e
            key = key or (e.ctx[0], e.ctx[2])
        elif e.kind == 'call' and e.name == 'W::Fn::operator()':
            if cur is not None:
                cur.calls.append(e)
            else:
                n += 1
    return out, end, n


def rule_pausing(ctx, d):
    it = d.it
    for r, f, ps in d.steps('act'):
        what = 'action while paused (%s reducer)' % r
        n = 0
        for p in ps:
            if p.st.facts.get(d.get(p.m, 'paused')) is not True:
                if p.st.exc is None and d.get(p.m, 'paused') not in p.st.facts:
                    ctx.ob('looks-whether-paused', what, False, 'does not look whether it is paused', p.site, trace(d, p))
                continue
            n += 1
            tr = trace(d, p)
            cs = reducer_calls(p)
            ctx.ob('reducer-not-run', what, not cs, 'calls the reducer', cs[0].where if cs else p.site, tr)
            if not ctx.ob('action-queued', what, p.st.exc is None, 'throws', p.site, tr):
                continue
            q = p.res('pending')
            ok = q.k == 'a' and q.a[0] == 'push' and p.same(q.a[1][0], d.get(p.m, 'pending')) and p.same(q.a[1][1], S('arg2'))
            ctx.ob('action-queued', what, ok, 'the queue becomes %s' % show(q, 6), p.site, tr)
            unchanged(ctx, d, p, 'keeps-the-rest', what, d.recorded[:-1] + ('cursor', 'paused'))
            for s, ops in run_effect(d, p, it.field(p.v, 'e1')):
                ctx.ob('no-effects', what, not ops, 'has an effect: %s' % [o[0] for o in ops], p.site, kit.trace_lines(it, s))
        if not n:
            raise kit.Broken('no path takes an action while paused')
    for r, f, ps in d.steps('pause'):
        what = 'pause (%s reducer)' % r
        for p in ps:
            tr = trace(d, p)
            ctx.ob('pauses', what, p.res('paused') is C(1), 'paused becomes %s' % show(p.res('paused')), p.site, tr)
            unchanged(ctx, d, p, 'keeps-the-rest', what, d.recorded + ('cursor',))
            for s, ops in run_effect(d, p, it.field(p.v, 'e1')):
                ctx.ob('suspends-the-loop', what, [o[0] for o in ops] == ['pause'], 'does %s' % ([o[0] for o in ops] or 'nothing'),
                       p.site, kit.trace_lines(it, s))
    for r, f, ps in d.steps('resume'):
        for p in ps:
            resume(ctx, d, p, r)
    ctx.absorb(it)


def resume(ctx, d, p, r):
    it = d.it
    what = 'resume (%s reducer)' % r
    tr = trace(d, p)
    if not ctx.ob('resumes', what, p.st.exc is None, 'throws', p.site, tr):
        return
    ctx.ob('resumes', what, p.res('paused') is C(0), 'paused becomes %s' % show(p.res('paused')), p.site, tr)
    q = p.res('pending')
    ctx.ob('queue-emptied', what, q.k == 'a' and q.a[0] == 'vec' and len(q.a[1]) == 0, 'the queue becomes %s' % show(q, 5), p.site, tr)
    unchanged(ctx, d, p, 'keeps-the-rest', what, ('init',))
    queue = d.get(p.m, 'pending')
    its, end, outside = passes(p)
    ctx.ob('reducer-called-once', what, not outside, 'calls the reducer outside of the walk over the queue', p.site, tr)
    # every queued action, in order
    if end is None:
        ok = p.z.proves(it.size(queue), C(0))
        ctx.ob('every-action', what, ok, 'does not walk the queue', p.site, tr)
    else:
        ctx.ob('every-action', what, end.name == 'cond', 'leaves the walk over the queue early', end.where, tr)
    index = C(0)
    loc_i = None
    for k, x in enumerate(its):
        if not ctx.ob('reducer-called-once', what, len(x.calls) == 1, 'calls the reducer %d times for a queued action' % len(x.calls), p.site, tr):
            return
        act = x.calls[0].vals[2]
        want = it.field(queue, ('i', index))
        ctx.ob('in-order', what, p.same(act, want), 'the reducer gets %s, expected %s' % (show(act, 5), show(want, 5)), x.calls[0].where, tr)
        # the position in the queue: a variable that starts at 0 and moves one further
        for loc, (a, b, l) in x.after.items():
            if (loc_i is None or loc == loc_i) and isc(a) and a.a[0] == 0 and b is it.add(index, 1) and loc[1][-1:] == ('i',):
                loc_i = loc
        if loc_i is None or loc_i not in x.after:
            # a counter kept otherwise
            for loc, (a, b, l) in x.after.items():
                if isc(a) and a.a[0] == 0 and b is it.add(index, 1):
                    loc_i = loc
                    break
        if loc_i is None or loc_i not in x.after:
            ctx.ob('every-action', what, False, 'does not advance through the queue by one', p.site, tr)
            return
        index = x.after[loc_i][2]
    ctx.ob('every-action', what, p.z.proves(it.size(queue), index), 'stops at %s of the queue' % show(index, 4), p.site, tr)
    # history and position carried along
    h, c = d.get(p.m, d.past), d.get(p.m, 'cursor')
    lh = lc = None
    for k, x in enumerate(its):
        e = x.calls[0]
        want = d.at_position(p, None, c, h)
        ctx.ob('reducer-gets-the-current-model', what, want is not None and p.same(e.vals[1], want), 'the reducer gets the model %s instead of %s' % (
            show(e.vals[1], 6), show(want, 6) if want is not None else '?'), e.where, tr)
        why = 'forgets the step'
        for loc, (a, b, l) in x.after.items():
            if lh is not None and loc != lh:
                continue
            w = d.appended(p, b, h, c, e.vals[2], result_model(r, e))
            if w is None:
                why, lh = None, loc
                break
            if d.recording(b):
                why = w
        if not ctx.ob('records-the-step', what, why is None, why, p.site, tr):
            return
        nh = x.after[lh][1]
        done = (nh, h, c, e.vals[2], result_model(r, e))
        fits = [loc for loc, (a, b, l) in x.after.items() if d.newest(p, b, *done)]
        if lc is None and fits:
            last = [loc for loc in fits if loc in its[-1].after and p.same(p.res('cursor'), its[-1].after[loc][2])]
            lc = (last or fits)[0]
        ok = lc in x.after and d.newest(p, x.after[lc][1], *done)
        if not ctx.ob('moves-to-the-newest-entry', what, ok, 'does not move to the new entry', p.site, tr):
            return
        h, c = x.after[lh][2], x.after[lc][2]
    ctx.ob('records-the-step', what, p.same(p.res(d.past), h), 'ends with the history %s' % show(p.res(d.past), 5), p.site, tr)
    ctx.ob('moves-to-the-newest-entry', what, p.same(p.res('cursor'), c), 'ends at position %s' % show(p.res('cursor'), 5), p.site, tr)
    # effects
    le = None
    for x in its:
        for loc, (a, b, l) in x.after.items():
            if b.k == 'r' and it.is_callable_rec(unwrapfn(unB(b))) or loc[1][-1:] == ('B',):
                le = loc
    prev = []
    for x in its:
        new = [x.calls[0]]
        if le is not None and le in x.after:
            a, b, l = x.after[le]
            for s, ops in run_effect(d, p, a):
                ctx.ob('effect-scheduled-once', what, not ops, 'starts with an effect', p.site, tr)
            for s, ops in run_effect(d, p, b):
                scheduled(ctx, d, p, r, what, s, ops, new, p.site, prev)
            prev = [l]
        else:
            scheduled(ctx, d, p, r, what, p.st, [], new, p.site, prev)
            prev = []
    for s, ops in run_effect(d, p, it.field(p.v, 'e1')):
        ls = [o for o, e in ops if not isinstance(o, V)]
        ctx.ob('restarts-the-loop', what, ls == ['resume'], 'does %s' % (ls or 'nothing'), p.site, kit.trace_lines(it, s))
        scheduled(ctx, d, p, 'plain', what, s, [(o, e) for o, e in ops if isinstance(o, V)], [], p.site, prev)

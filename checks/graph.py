"""Rules over the propagation graph (nodes.hpp, *_nodes.hpp, state/sensor/constant/setter).

Every concrete node class is analysed from an arbitrary state: each of its methods is
abstractly executed once (all branches, generic loop iteration), user code and other
nodes being opaque calls.  The rules are stated on the resulting paths: provenance of
the values stored, which dependents are reached, what happens in which order.
"""
import itertools
from engine import kit
from engine.interp import *
from engine.paths import *
from engine.nodes import NodeClass, concrete, same, NS

OBS, CHILD, PARENT, USER, OTHER = 'observers', 'child', 'parent', 'user', 'other'


class Path:
    def __init__(self, n, method, st, res):
        self.n, self.m, self.st, self.res = n, method, st, res
        self.evs = st.events()
        self._loops = None

    @property
    def loops(self):
        if self._loops is None:
            self._loops = loops(self.evs)
        return self._loops

    def last_where(self):
        for e in reversed(self.evs):
            if e.where and e.where != '?' and e.where.startswith(kit.REPO):
                return e.where
        return self.m['loc_s']


class Node(NodeClass):
    def __init__(self, it, rec):
        super().__init__(it, rec)
        P_ = self.P
        fields = P_.all_fields(rec['i'])
        self.sigf = [f['id'] for f in fields if 'lager::detail::signal<' in P_.tname(f['t'])]
        self.parents = self.find_parents(fields)
        it.snap = lambda st: st.mem.get(self.base)
        self.paths = {}
        for m in ('send_down', 'notify', 'refresh', 'recompute', 'send_up', 'link'):
            for f in self.method(m):
                f['loc_s'] = P_.loc(f.get('loc')) if isinstance(f.get('loc'), list) else str(f.get('loc', '?'))
                rs = self.run_value(f) if f['params'] else self.run(f, [])
                rs = [x for s, v in rs for x in self.split(s, v)]
                self.paths[f['id']] = [Path(self, f, s, v) for s, v in rs]
        it.snap = None
        self.is_root = not self.parents
        self.auto = 'automatic_tag' in self.name
        self.hastag = '_tag' in self.name

    def split(self, st, v):
        """case-split a final state on the boolean marks left with a computed value, and on the initial value of
        the members of enumeration type"""
        outs = [(st, v)]
        for path, consts in self.enums:
            nxt = []
            x0 = self.field0(path)
            for s, r in outs:
                known = [k for k in consts if self.it_eq(s, x0, k) is True]
                for k in known or [k for k in consts if self.it_eq(s, x0, k) is not False]:
                    s2 = s.copy()
                    for f in self.flags:
                        if f['path'] == path and 'in' in f:
                            s2.facts[self.mark0(f['id'])] = k in f['in']
                    s2.facts[A('==', x0, C(k))] = True
                    nxt.append((s2, r))
            outs = nxt
        for f in self.flags:
            if 'in' in f:
                continue
            nxt = []
            for s, r in outs:
                x = self.get(s, f['path'])
                if isc(x) or x is self.mark0(f['id']):
                    nxt.append((s, r))
                    continue
                t0 = s.trace
                for s2, b in self.it.truth(s, x, '?', None):
                    s2 = s2.copy()
                    self.it.write(s2, (self.base, f['path']), TRUE if b else FALSE, quiet=True)
                    s2.trace = t0
                    nxt.append((s2, r))
            outs = nxt
        return outs

    def find_parents(self, fields):
        """terms of the owning pointers to other nodes, in declaration / tuple order"""
        P_ = self.P
        out = []
        for f in fields:
            if not P_.isrec(f['t']):
                continue
            r = P_.rec_of_type(f['t'])
            me = mk('f', S('node'), f['id'])
            if r['bname'] == 'std::shared_ptr':
                out.append(me)
            elif r['bname'] in ('std::tuple', 'std::pair') and r.get('targs'):
                if all('t' in a and P_.isrec(a['t']) and P_.rec_of_type(a['t'])['bname'] == 'std::shared_ptr'
                       for a in r['targs']):
                    for i in range(len(r['targs'])):
                        out.append(mk('f', me, 'e%d' % i))
            elif r['bname'] == 'std::array' and r.get('targs') and P_.isrec(r['targs'][0]['t']) and \
                    P_.rec_of_type(r['targs'][0]['t'])['bname'] == 'std::shared_ptr':
                for i in range(r['targs'][1].get('i', 0)):
                    out.append(mk('f', me, ('i', C(i))))
        return out

    # --- classification of events
    def classify(self, e):
        if e.kind not in ('call', 'vcall', 'invoke'):
            return None
        short = e.name.rsplit('::', 1)[-1]
        if e.kind == 'call' and short == 'operator()' and 'lager::detail::signal' in e.name:
            return OBS
        t = e.this
        if t is not None and t.k != 'p':
            if self.is_child(t) is not None:
                return CHILD
            if any(t is p for p in self.parents):
                return PARENT
        if e.kind == 'vcall':
            return OTHER
        if short in ('operator==', 'operator!='):
            return None
        if e.name.startswith('W::') or e.kind == 'invoke':
            return USER
        return OTHER

    def is_child(self, t):
        """index term if t is the locked i-th element of the children"""
        if t.k == 'a' and t.a[0] == 'lock':
            v = t.a[1][0]
            if v.k == 'f' and isinstance(v.a[1], tuple) and v.a[1][0] == 'i':
                if self.is_children(v.a[0]):
                    return v.a[1][1]
        return None

    def is_children(self, v):
        v, _ = strip_after(v)
        while v.k == 'a' and v.a[0] in ('push',):
            v = v.a[1][0]
        return v.k == 'f' and v.a[1] in self.children

    def all_paths(self):
        for ps in self.paths.values():
            for p in ps:
                yield p

    def by(self, short):
        for fid, ps in self.paths.items():
            if self.P.fnrefs[fid]['short'] == short:
                for p in ps:
                    yield p

    def at(self, snap, role):
        v = snap
        for k in role:
            v = self.it.field(v, k)
        return v

    def cur0(self):
        return self.init(self.cur)

    def last0(self):
        return self.init(self.last)

    def parent_cur(self, v):
        """-> (index of parent, [calls made on it before]) if v is a parent's current value"""
        if v.k != 'd':
            return None
        q = v.a[0]
        if q.k != 'f' or q.a[1] != self.curview:
            return None
        o, hist = strip_after(q.a[0])
        if o.k == 'd':
            for i, p in enumerate(self.parents):
                if o.a[0] is p:
                    return i, hist
        return None

    def parent_last(self, v):
        if v.k != 'd':
            return None
        q = v.a[0]
        if q.k != 'f' or q.a[1] != self.lastview:
            return None
        o, hist = strip_after(q.a[0])
        if o.k == 'd':
            for i, p in enumerate(self.parents):
                if o.a[0] is p:
                    return i, hist
        return None


class Graph:
    def __init__(self, ctx, witness='nodes.cpp', only=None):
        self.ctx = ctx
        self.P = P_ = kit.export(witness)
        self.nodes = []
        recs = concrete(P_)
        if not recs:
            raise kit.Broken('no node class found in the witness')
        # names of the view pointers used to look at other nodes
        self.views = {}
        for r in recs:
            if only and not only(r):
                continue
            it = Interp(P_)
            it.opaque = lambda f: f['short'] == 'operator()' and f.get('rname', '').endswith('detail::signal')
            it.keeps_args = it.opaque
            n = Node(it, r)
            if n.cur is None or n.last is None:
                raise kit.Broken('cannot locate pending/visible value of ' + n.name)
            self.nodes.append(n)
            ctx.absorb(it)
            ctx.paths += sum(len(x) for x in n.paths.values())
        for n in self.nodes:
            n.curviews = {}
        self.mark_views()
        self.it = Interp(P_)

    def mark_views(self):
        """which field of a foreign node `current()` / `last()` read"""
        cv, lv = set(), set()
        it = Interp(self.P)
        for short, acc in (('current', cv), ('last', lv)):
            for f in self.P.fnrefs.values():
                if f['short'] == short and f['bname'].startswith(NS) and f['id'] in self.P.functions and not f['params']:
                    fr = Frame(it.fid(0, 'v'), None, None, None, 0, None)
                    for s, v in it.call(f, S('other'), [], St(), fr, 'v', '?'):
                        if v.k == 'f':
                            acc.add(v.a[1])
        self.cv, self.lv = cv, lv
        for n in self.nodes:
            n.curview, n.lastview = AnyOf(cv), AnyOf(lv)


class AnyOf:
    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return o in self.s

    def __ne__(self, o):
        return o not in self.s


def where_of(p):
    return p.last_where()


def tr(p):
    return kit.trace_lines(p.n.it, p.st)


def nm(n):
    """stable display name of a node class"""
    s = n.rec['bname'].rsplit('::', 1)[-1]
    k = len(n.parents)
    if n.hastag:
        s += '<auto>' if n.auto else '<transactional>'
    elif k:
        s += '<%d>' % k
    return s


def label(n, m):
    t = ''
    if m['params']:
        t = '(&&)' if n.P.tk(m['params'][0]['t']) == 'rref' else '(const&)'
    return nm(n) + '::' + m['short'] + t


# ----------------------------------------------------------------- flag inference
def f0(n, fid):
    """the mark's value before the call"""
    return n.mark0(fid)


def mark_in(n, obj, fid):
    """the value of a mark in a snapshot of the node"""
    return n.mark_of(n.at(obj, n.mark_path(fid)), fid)


def mark(n, st, fid):
    return n.mark_of(n.get(st, n.mark_path(fid)), fid)


def with_inv(n, st, assume):
    """state with the assumption cur0 == last0 added"""
    if not assume:
        return st
    s = St()
    s.facts = dict(st.facts)
    s.facts[A('==', n.cur0(), n.last0())] = True
    s.mem = st.mem
    return s


def equal_cl(n, p, assume, cur=None, last=None):
    c = cur if cur is not None else n.get(p.st, n.cur)
    l = last if last is not None else n.get(p.st, n.last)
    s = with_inv(n, p.st, assume)
    if same(s, c, l):
        return True
    if assume:
        # substitute last0 by cur0
        for a, b in ((n.last0(), n.cur0()), (n.cur0(), n.last0())):
            if same(s, subst(c, a, b), subst(l, a, b)):
                return True
        # transitivity through the assumption: c == cur0 (fact), l is last0
        if l is n.last0() and same(s, c, n.cur0()):
            return True
        if c is n.cur0() and same(s, l, n.last0()):
            return True
    return False


def subst(v, a, b):
    if v is a:
        return b
    if v.k == 'r':
        return REC(v.a[0], None if v.a[1] is None else subst(v.a[1], a, b), {k: subst(x, a, b) for k, x in v.a[2]})
    return v


def dirty_failures(n, D):
    """obligations of: not D implies pending value == visible value"""
    out = []
    for c, ps in n.ctors:
        for s in ps:
            if s.exc is not None:
                continue
            obj = s.mem[n.base]
            d = mark_in(n, obj, D)
            if not (isc(d) and d.a[0]):
                if not same(s, n.at(obj, n.cur), n.at(obj, n.last)):
                    out.append((None, 'after construction the pending and the visible value may differ unnoticed'))
    for p in n.all_paths():
        if p.st.exc is not None:
            pass
        d = mark(n, p.st, D)
        d0 = f0(n, D)
        if d is TRUE:
            continue
        if d is FALSE:
            fact = p.st.facts.get(d0)
            if not equal_cl(n, p, fact is False):
                out.append((p, 'the pending value may differ from the visible one without being marked for publication'))
            continue
        if d is d0:
            fact = p.st.facts.get(d0)
            if fact is True:
                continue
            c, l = n.get(p.st, n.cur), n.get(p.st, n.last)
            if fact is None and c is n.cur0() and l is n.last0():
                continue
            if not equal_cl(n, p, True):
                out.append((p, 'the pending value changes without being marked for publication'))
            continue
        # some other expression, e.g. D || changed
        out.append((p, 'publication mark has an unrecognised value %s' % show(d, 3)))
    return out


def choose(n, fn, cands):
    best, bf = None, None
    for c in cands:
        f = fn(c)
        if bf is None or len(f) < len(bf):
            best, bf = c, f
        if not f:
            break
    return best, bf


def dirty_flag(n):
    if not hasattr(n, '_dirty'):
        cands = [f['id'] for f in n.flags]
        D, fl = choose(n, lambda d: dirty_failures(n, d) + publish_failures(n, d), cands) if cands else (None, [])
        n._dirty = (D, dirty_failures(n, D) if cands else [])
    return n._dirty


def publish_failures(n, D):
    """send_down leaves visible == pending"""
    out = []
    for p in n.by('send_down'):
        if p.st.exc is not None:
            continue
        assume = D is not None and p.st.facts.get(f0(n, D)) is False
        if not equal_cl(n, p, assume):
            out.append((p, 'the pending value is not made visible'))
    return out


# ------------------------------------------------------------------ event helpers
def events(n, p, kind):
    return [(i, e) for i, e in enumerate(p.evs) if n.classify(e) == kind]


def child_calls(n, p, short):
    return [(i, e) for i, e in events(n, p, CHILD) if e.name.endswith('::' + short)]


def writes(n, p, role, lo=0):
    """indices of writes to the given location of the node itself"""
    out = []
    for i, e in enumerate(p.evs):
        if i >= lo and e.kind == 'W' and e.this.k == 'p' and e.this.a[0] == n.base:
            path = e.this.a[1]
            k = min(len(path), len(role))
            if path[:k] == tuple(role)[:k]:
                out.append((i, e))
    return out


def children_visits(n, p, short):
    """-> (status, why): does the path call `short` on every live child exactly once?"""
    calls = child_calls(n, p, short)
    # which loops range over the children
    visited = None
    status = []
    rel = []
    for lp in p.loops:
        idxs = {}
        segs = {}
        for k, seg in lp.iters:
            idx = None
            for e in seg:
                t = None
                if e.kind in 'FK' and e.this.k == 'a' and e.this.a[0] == 'lock':
                    t = n.is_child(e.this)
                elif e.kind == 'vcall' and e.this is not None:
                    t = n.is_child(e.this)
                if t is not None:
                    idx = t
                    break
            idxs[k] = idx
            segs[k] = seg
        if any(v is not None for v in idxs.values()):
            used = {e.name.rsplit('::', 1)[-1] for seg in segs.values() for e in seg
                    if e.kind == 'vcall' and e.this is not None and n.is_child(e.this) is not None}
            if used and short not in used:
                continue        # a loop with another purpose
            rel.append((lp, idxs, segs))
    if not rel:
        # no loop entered: fine only when there are no children
        for f, val in p.st.facts.items():
            if f.k == 'a' and f.a[0] == '==' and val and isc(f.a[1][1]) and f.a[1][1].a[0] == 0 and \
                    is_size(f.a[1][0]) and n.is_children(f.a[1][0].a[1][0]):
                return 'full', ''
            if f.k == 'a' and f.a[0] == '<' and val is False and isc(f.a[1][0]) and f.a[1][0].a[0] == 0 and \
                    is_size(f.a[1][1]) and n.is_children(f.a[1][1].a[1][0]):
                return 'full', ''
        if any(lp for lp in p.loops if not lp.iters):
            return 'unknown', 'loop over no elements'
        return 'none', 'no dependents are visited'
    did = False
    for lp, idxs, segs in rel:
        has_call = False
        okseg = True
        why = ''
        tested = False
        for k, seg in segs.items():
            idx = idxs.get(k)
            if idx is None:
                okseg, why = False, 'an iteration visits no dependent'
                continue
            nc = 0
            dead = False
            for e in seg:
                if e.kind in 'FK' and e.this.k == 'a' and e.this.a[0] == 'lock' and n.is_child(e.this) is idx \
                        and e.args[0] is FALSE:
                    dead = True
                if e.kind == 'vcall' and e.this is not None and n.is_child(e.this) is idx:
                    if e.name.endswith('::' + short):
                        nc += 1
            if nc:
                has_call = True
            if not dead and nc != 1:
                okseg = False
                why = 'a live dependent is %s' % ('skipped' if nc == 0 else 'visited %d times' % nc)
            if dead and nc:
                okseg, why = False, 'an expired dependent is used'
        cov, cwhy = coverage(lp, p.st.facts, lambda k: idxs.get(k), lambda t: is_size(t))
        if not has_call and not any(e for e in calls):
            # all iterations saw expired children
            if okseg and cov == 'full':
                did = True
                continue
        if okseg and cov in ('full', 'unknown'):
            if has_call and did and False:
                return 'bad', 'dependents are visited more than once'
            did = True
            if cov == 'unknown':
                status.append(('unknown', cwhy))
        elif has_call or not did:
            status.append(('bad', why or cwhy))
    bad = [s for s in status if s[0] == 'bad']
    if bad and not did:
        return bad[0]
    if bad and did:
        return bad[0]
    if status:
        return status[0]
    return ('full', '') if did else ('none', 'no dependents are visited')


# ======================================================================= rules
def rule_dirty_invariant(ctx, g):
    """¬mark ⇒ pending = visible, inductively over construction and every method"""
    for n in g.nodes:
        D, fl = dirty_flag(n)
        if D is None:
            # no mark at all: then publication must be unconditional (checked by rule_publish)
            ctx.ob('publication-mark', nm(n), True)
            continue
        fails = {}
        for p, why in fl:
            fails.setdefault(p.m['id'] if p else None, (p, why))
        for fid, ps in n.paths.items():
            f = n.P.fnrefs[fid]
            p, why = fails.get(fid, (None, ''))
            ctx.ob('publication-mark', label(n, f), p is None, why, p and where_of(p), p and tr(p))
        if None in fails:
            ctx.ob('publication-mark', nm(n) + ' construction', False, fails[None][1])


def rule_publish(ctx, g):
    for n in g.nodes:
        fl = publish_failures(n, dirty_flag(n)[0])
        ctx.ob('publish-pending', label(n, next(iter(n.by('send_down'))).m) if any(True for _ in n.by('send_down'))
               else nm(n), not fl, fl and fl[0][1] or '', fl and where_of(fl[0][0]) or '', fl and tr(fl[0][0]) or None)


def rule_children_told(ctx, g):
    """when send_down changes the visible value every live dependent is propagated to, after the change"""
    for n in g.nodes:
        for p in n.by('send_down'):
            if p.st.exc is not None:
                continue
            changed = n.get(p.st, n.last) is not n.last0()
            if not changed:
                continue
            st, why = children_visits(n, p, 'send_down')
            ctx.ob('propagate-to-dependents', label(n, p.m), st in ('full', 'unknown'), why, where_of(p), tr(p))
            if st == 'unknown':
                ctx.note('coverage of a loop not established: ' + why)
            calls = child_calls(n, p, 'send_down')
            if calls:
                ws = [i for i, e in writes(n, p, n.last)] + [i for i, e in writes(n, p, n.cur)]
                ctx.ob('value-before-dependents', label(n, p.m), not ws or max(ws) < calls[0][0],
                       'the value is still changed after dependents were propagated to', where_of(p), tr(p))


def rule_no_notify_while_propagating(ctx, g):
    for n in g.nodes:
        for short in ('send_down', 'refresh', 'recompute'):
            for p in n.by(short):
                bad = events(n, p, OBS) + child_calls(n, p, 'notify')
                ctx.ob('no-callback-during-propagation', label(n, p.m), not bad,
                       'watchers run during %s' % short, bad[0][1].where if bad else '', bad and tr(p))


def rule_notify_does_not_publish(ctx, g):
    for n in g.nodes:
        for p in n.by('notify'):
            ws = writes(n, p, n.last) + writes(n, p, n.cur)
            ctx.ob('notify-publishes-nothing', label(n, p.m), not ws, 'notifying changes the value',
                   ws[0][1].where if ws else '', ws and tr(p))
            sd = [(i, e) for i, e in enumerate(p.evs) if e.kind == 'vcall' and e.name.rsplit('::', 1)[-1] in
                  ('send_down', 'refresh', 'recompute', 'send_up')]
            ctx.ob('notify-publishes-nothing', label(n, p.m), not sd, 'notifying propagates values',
                   sd[0][1].where if sd else '', sd and tr(p))


def rule_auto_order(ctx, g):
    """automatic writes: propagate completely, then notify"""
    for n in g.nodes:
        for p in n.by('send_up'):
            obs = events(n, p, OBS) + child_calls(n, p, 'notify')
            if not obs:
                continue
            first = min(i for i, e in obs)
            late = [(i, e) for i, e in child_calls(n, p, 'send_down') if i > first]
            ctx.ob('propagate-before-notify', label(n, p.m), not late,
                   'a dependent is propagated to after watchers were called',
                   late[0][1].where if late else '', late and tr(p))
            e = p.evs[first]
            if e.snap is not None:
                c, l = n.at(e.snap, n.cur), n.at(e.snap, n.last)
                D, _ = dirty_flag(n)
                clean = D is not None and p.st.facts.get(f0(n, D)) is False
                ctx.ob('publish-before-notify', label(n, p.m), equal_cl(n, p, clean, c, l),
                       'watchers run before the written value is visible', e.where, tr(p))
            ws = [w for w in writes(n, p, n.last) + writes(n, p, n.cur) if w[0] > first]
            ctx.ob('publish-before-notify', label(n, p.m), not ws, 'the value changes after watchers were called',
                   ws[0][1].where if ws else '', ws and tr(p))


def rule_auto_publishes(ctx, g):
    """an automatic state/setter publishes and notifies every write; a transactional one never"""
    for n in g.nodes:
        if not n.hastag:
            continue
        for p in n.by('send_up'):
            if p.st.exc is not None:
                continue
            c, l = n.get(p.st, n.cur), n.get(p.st, n.last)
            if n.auto:
                D, _ = dirty_flag(n)
                ctx.ob('automatic-publishes', label(n, p.m), equal_cl(n, p, D is not None), 'the written value stays invisible',
                       where_of(p), tr(p))
                if l is not n.last0() and not equal_cl(n, p, False, l, n.last0()):
                    # notification is decided by notify(); it must be attempted after the change
                    fl = notify_flags(n)
                    obs = events(n, p, OBS)
                    skipped = any(p.st.facts.get(f0(n, f)) is not None for f in ())
                    ok = len(obs) == 1
                    ctx.ob('automatic-notifies', label(n, p.m), ok,
                           'watchers are called %d times for a published write' % len(obs), where_of(p), tr(p))
            else:
                ctx.ob('transactional-silent', label(n, p.m), l is n.last0(), 'a write becomes visible without commit',
                       where_of(p), tr(p))
                bad = events(n, p, OBS) + events(n, p, CHILD)
                ctx.ob('transactional-silent', label(n, p.m), not bad, 'a write propagates without commit',
                       bad[0][1].where if bad else '', bad and tr(p))


def rule_visible_only_by_publish(ctx, g):
    """no method other than send_down (and an automatic write) changes the visible value"""
    for n in g.nodes:
        for fid, ps in n.paths.items():
            short = n.P.fnrefs[fid]['short']
            if short == 'send_down' or (short == 'send_up' and n.auto):
                continue
            for p in ps:
                ctx.ob('visible-only-by-publish', label(n, p.m), n.get(p.st, n.last) is n.last0(),
                       'the visible value changes in %s' % short, where_of(p), tr(p))
        for c, ps in n.ctors:
            for s in ps:
                if s.exc is None:
                    obj = s.mem[n.base]
                    ctx.ob('initially-visible', nm(n), same(s, n.at(obj, n.cur), n.at(obj, n.last)),
                           'the initial visible value differs from the pending one', n.P.loc(c.get('loc')))


def rule_observed_value(ctx, g):
    """watchers are handed the visible value"""
    for n in g.nodes:
        for p in n.all_paths():
            for i, e in events(n, p, OBS):
                want = n.at(e.snap, n.last)
                got = e.vals[1] if len(e.vals) > 1 else None
                ctx.ob('callback-gets-visible-value', label(n, p.m), got is want or
                       (got is not None and same(p.st, got, want)),
                       'watchers receive %s, the visible value is %s' % (show(got, 4) if got else '?', show(want, 4)),
                       e.where, tr(p))


# ------------------------------------------------------------------- notification
def implied_flags(n):
    """pairs (F, G): F implies G, inductively"""
    if hasattr(n, '_impl'):
        return n._impl
    out = set()
    for F, G in itertools.permutations([f['id'] for f in n.flags], 2):
        ok = True
        for c, ps in n.ctors:
            for s in ps:
                if s.exc is None:
                    a, b = mark_in(n, s.mem[n.base], F), mark_in(n, s.mem[n.base], G)
                    if a is not FALSE and b is not TRUE:
                        ok = False
        for p in n.all_paths():
            a, b = mark(n, p.st, F), mark(n, p.st, G)
            if a is FALSE or b is TRUE:
                continue
            if a is f0(n, F) and b is f0(n, G):
                continue
            if a is f0(n, F) and (p.st.facts.get(f0(n, F)) is False or p.st.facts.get(f0(n, G)) is False):
                continue
            ok = False
            break
        if ok:
            out.add((F, G))
    n._impl = out
    return out


def feasible(n, p):
    """drop paths contradicting the inductive implications between flags"""
    for F, G in implied_flags(n):
        if p.st.facts.get(f0(n, F)) is True and p.st.facts.get(f0(n, G)) is False:
            return False
    return True


def notify_failures(n, F):
    D, _ = dirty_flag(n)
    out = []
    for c, ps in n.ctors:
        for s in ps:
            if s.exc is None and mark_in(n, s.mem[n.base], F) is not FALSE:
                out.append((None, 'a new node is marked as changed'))
    for p in n.all_paths():
        if p.st.exc is not None or not feasible(n, p):
            continue
        short = p.m['short']
        Ff, F0 = mark(n, p.st, F), f0(n, F)
        fact = p.st.facts.get(F0)
        if Ff in p.st.facts and Ff is not F0:
            Ff = TRUE if p.st.facts[Ff] else FALSE
        keep = Ff is F0
        if keep and fact is not None:
            Ff = TRUE if fact else FALSE
        l = n.get(p.st, n.last)
        obs = events(n, p, OBS)
        if short != 'notify':
            if l is not n.last0() and not equal_cl(n, p, False, l, n.last0()):
                # changed: the mark is set, or the watchers were called afterwards
                if not obs and Ff is not TRUE:
                    out.append((p, 'a visible change is not marked for notification'))
            elif not obs and Ff is TRUE and fact is not True:
                if l is n.last0():
                    out.append((p, 'watchers are marked for notification although nothing changed'))
                else:
                    out.append((p, 'watchers are marked for notification although the published value equals the previous one'))
            elif not obs and Ff is FALSE and fact is not False:
                out.append((p, 'a pending notification is dropped'))
            if l is not n.last0() and not obs and Ff is TRUE and fact is not True and \
                    has_eq(n) and not differs(n, p, l):
                out.append((p, 'watchers are marked for notification without the published value being compared'))
            if obs:
                at = mark_in(n, obs[0][1].snap, F)
                if at is not FALSE:
                    out.append((p, 'the change is still marked for notification while watchers run'))
                if Ff is not FALSE:
                    out.append((p, 'the change stays marked for notification after watchers ran'))
            if len(obs) > 1:
                out.append((p, 'watchers are called %d times' % len(obs)))
        else:
            dfact = p.st.facts.get(f0(n, D)) if D is not None else None
            if len(obs) > 1:
                out.append((p, 'watchers are called %d times' % len(obs)))
            elif obs:
                if fact is not True:
                    out.append((p, 'watchers are called although nothing changed since the last notification'))
                at = mark_in(n, obs[0][1].snap, F)
                if at is not FALSE:
                    out.append((p, 'a nested notification would call the watchers again: '
                                   'the change is still marked while they run'))
                w = [x for x in writes(n, p, n.mark_path(F)) if x[0] > obs[0][0]]
                if w:
                    out.append((p, 'the change mark is overwritten after watchers ran, losing nested changes'))
                if Ff is not FALSE:
                    out.append((p, 'the change stays marked after its notification'))
            else:
                if fact is True and dfact is not True:
                    out.append((p, 'watchers of a changed value are not called'))
                if fact is True and Ff is not TRUE:
                    out.append((p, 'a pending notification is dropped'))
                if not looked(n, p, F, D) and not no_watchers(n, p):
                    out.append((p, 'notify() may skip a changed value: it returns without looking whether it changed'))
    return out


def looked(n, p, F, D):
    """the path knows that nothing is to be notified: not marked, or a pending write is left for the next publish"""
    facts = p.st.facts
    if facts.get(f0(n, F)) is False or (D is not None and facts.get(f0(n, D)) is True):
        return True
    return any(a == F and facts.get(f0(n, b)) is False for a, b in implied_flags(n))


def no_watchers(n, p):
    """the path asked its own watchers or dependents and found none"""
    return any(contains(f, lambda x: x.k == 'f' and contains(x, lambda y: y is S('node')) and
                        x.a[1] in n.sigf + n.children) for f in p.st.facts)


def has_eq(n):
    """the witness' NoEq is the only value type without equality"""
    return 'W::NoEq' not in n.name


def differs(n, p, l):
    """the path established that the published value differs from the previously visible one"""
    if p.st.facts.get(A('==', l, n.last0())) is False or p.st.facts.get(A('==', n.last0(), l)) is False:
        return True
    # the pending value was only just changed: last0 == cur0 when it was not marked before
    D, _ = dirty_flag(n)
    if D is not None and p.st.facts.get(f0(n, D)) is False:
        c0 = n.cur0()
        return p.st.facts.get(A('==', l, c0)) is False or p.st.facts.get(A('==', c0, l)) is False
    # compared component-wise (tuples)
    if l.k == 'r' and any(f.k == 'a' and f.a[0] == '==' and v is False and
                          contains(f, lambda x: x is n.last0()) for f, v in p.st.facts.items()):
        return True
    return False


def notify_flags(n):
    if not hasattr(n, '_nflag'):
        cands = [f['id'] for f in n.flags]
        n._nflag = choose(n, lambda f: notify_failures(n, f), cands) if cands else (None, [(None, 'no mark for notification')])
    return n._nflag


def rule_notify_mark(ctx, g):
    for n in g.nodes:
        F, fl = notify_flags(n)
        fails = {}
        for p, why in fl:
            fails.setdefault(p.m['id'] if p else None, (p, why))
        for fid, ps in n.paths.items():
            p, why = fails.get(fid, (None, ''))
            ctx.ob('notify-once-per-change', label(n, n.P.fnrefs[fid]), p is None, why, p and where_of(p), p and tr(p))
        if None in fails:
            ctx.ob('notify-once-per-change', nm(n), False, fails[None][1])


def rule_notify_reaches(ctx, g):
    """notifying visits every live dependent; own watchers and dependents see final state"""
    for n in g.nodes:
        for p in n.all_paths():
            obs = events(n, p, OBS)
            if p.st.exc is not None:
                continue
            if not obs:
                if p.m['short'] == 'notify' and feasible(n, p) and not child_calls(n, p, 'notify'):
                    F, _ = notify_flags(n)
                    D, _ = dirty_flag(n)
                    ctx.ob('notify-dependents', label(n, p.m),
                           F is None or looked(n, p, F, D) or no_watchers(n, p),
                           'returns without telling the dependents and without looking whether the value changed',
                           where_of(p), tr(p))
                continue
            st, why = children_visits(n, p, 'notify')
            ctx.ob('notify-dependents', label(n, p.m), st in ('full', 'unknown'), why, where_of(p), tr(p))


def reentrancy_flag(n):
    """flag that is true whenever foreign code may run inside notify, restored afterwards"""
    def fails(G):
        out = []
        for p in n.by('notify'):
            calls = events(n, p, OBS) + child_calls(n, p, 'notify')
            for i, e in calls:
                if mark_in(n, e.snap, G) is not TRUE:
                    out.append((p, 'foreign code runs without the re-entrancy mark being set'))
                    break
            if calls:
                end = mark(n, p.st, G)
                g0 = f0(n, G)
                if end is not g0 and not (isc(end) and p.st.facts.get(g0) is bool(end.a[0])):
                    out.append((p, 'the re-entrancy mark is not restored'))
        return out
    cands = [f['id'] for f in n.flags]
    G, gf = choose(n, fails, cands)
    return [c for c in cands if not fails(c)] or [G], gf


def shrinks(n, p):
    """writes that remove dependents or observers: [(event index, new content)]"""
    out = []
    for cf in n.children:
        for i, e in writes(n, p, (cf,)):
            v = e.args[0]
            if v.k == 'a' and v.a[0] in ('push',):
                continue
            if v.k == 'a' and v.a[0] == 'removed':
                continue
            out.append((i, e, v))
    return out


def rule_collect(ctx, g):
    """only expired dependents are discarded, and never while a notification is under way"""
    some = False
    for n in g.nodes:
        Gs, gf = reentrancy_flag(n) if n.flags else ([], [])
        collected = False
        for p in n.all_paths():
            for i, e, v in shrinks(n, p):
                ok, why = exact_expired(n, p, i, v)
                ctx.ob('discard-only-expired', label(n, p.m), ok, why, e.where, tr(p))
                if ok:
                    collected = True
                later = [x for x in p.evs[i:] if n.classify(x) in (OBS, CHILD)]
                idle = not gf and any(p.st.facts.get(f0(n, G)) is False for G in Gs)
                ctx.ob('discard-when-idle', label(n, p.m), idle and not later,
                       'dependents are removed while an outer notification may be iterating over them'
                       if not gf else gf[0][1], e.where, tr(p))
        notif = list(n.by('notify'))
        if notif:
            dead = [p for p in notif if any(f.k == 'a' and f.a[0] == 'lock' and val is False and n.is_child(f) is not None
                                            for f, val in p.st.facts.items())]
            removes_elsewhere = collected
            ctx.ob('expired-discarded', nm(n), collected or not dead,
                   'expired dependents are never discarded', where_of(notif[0]))


def refilled(n, p, i, v):
    """is v a fresh container into which a loop put every live dependent?  None: no such loop here"""
    if any(f.k == 'a' and f.a[0] == '==' and b is True and f.a[1][1] is C(0) and f.a[1][0].k == 'a' and
           f.a[1][0].a[0] == 'size' and n.is_children(f.a[1][0].a[1][0]) for f, b in p.st.facts.items()):
        return True
    start = max((j for j, e in enumerate(p.evs[:i]) if e.kind == 'loopexit' and e.name == 'cond'), default=None)
    if start is None:
        return None
    sid = p.evs[start].ctx[0]
    j = start
    while j > 0 and not (p.evs[j].kind == 'loopiter' and p.evs[j].ctx[0] == sid and p.evs[j].ctx[1] == 0):
        j -= 1
    turns = []
    for e in p.evs[j:start]:
        if e.kind == 'loopiter' and e.ctx[0] == sid:
            turns.append([])
        turns[-1].append(e)
    any_ = False
    for body in turns:
        seen = [e.this for e in body if e.kind in ('F', 'K') and e.this is not None]
        looked_at = [t for t in seen if t.k == 'a' and t.a[0] == 'lock' and n.is_child(t) is not None]
        pushed = [e for e in body if e.kind == 'cont' and e.name.rsplit('::', 1)[-1] in ('push_back', 'emplace_back', 'insert')]
        any_ = any_ or bool(looked_at)
        if not all(p.st.facts.get(t) is bool(pushed) for t in looked_at):
            return False
    return True if any_ else None


def exact_expired(n, p, i, v):
    """is v the children with exactly the expired ones removed?"""
    if v.k != 'a' or v.a[0] in ('vec', 'push'):
        ok = refilled(n, p, i, v)
        if ok is not None:
            return ok, 'a live dependent is not carried over, or an expired one is'
    if v.k == 'a' and v.a[0] == 'filtered':
        cont, desc = v.a[1]
        if desc.k == 'a' and desc.a[0] in ('remove_if', 'erase_if'):
            cv, full, lv, pred = desc.a[1]
            if full is not TRUE:
                return False, 'only a part of the dependents is considered'
            el = mk('f', cv, ('i', lv))
            want = A('!', A('lock', el))
            if pred is want:
                return True, ''
            if pred is A('lock', el):
                return False, 'live dependents are discarded'
            if contains(pred, lambda x: x.k == 'a' and x.a[0] == 'lock'):
                return False, 'the dependents discarded are not exactly the expired ones: %s' % show(pred, 5)
            return True, ''     # unrecognised predicate: not decided
    if v.k == 'a' and v.a[0] == 'vec':
        return False, 'all dependents are discarded'
    return True, ''


def live_iterator(it, st, lp, owner):
    """container inside `owner` that a loop variable of lp iterates over by iterator, or None"""
    for c in lp.iterated:
        if owner(c):
            return c
    return None


def rule_notify_iteration(ctx, g):
    """the loop calling foreign code does not hold iterators into the live list of dependents"""
    for n in g.nodes:
        for p in list(n.by('notify')) + list(n.by('send_up')):
            for lp in p.loops:
                calls = [e for k, seg in lp.iters for e in seg if n.classify(e) == OBS or
                         (n.classify(e) == CHILD and e.name.endswith('::notify'))]
                if not calls:
                    continue
                bad = live_iterator(n.it, p.st, lp, lambda c: c.a[0] == n.base)
                ctx.ob('iteration-survives-callbacks', label(n, p.m), bad is None,
                       'iterates over the live list of dependents while callbacks may extend it', lp.where, bad and tr(p))


# ------------------------------------------------------------ derived values
def flat(v, val=None):
    """leaves of a (nested) argument tuple"""
    if v.k == 'r' and v.a[1] is None and v.a[2] and all(isinstance(k, str) and k[:1] == 'e' and k[1:].isdigit()
                                                       for k, _ in v.a[2]):
        out = []
        for k, x in sorted(v.a[2], key=lambda kx: int(kx[0][1:])):
            out += flat(x)
        return out
    return [v]


def unexpand(n, leaves):
    """undo element-wise use of one parent's tuple value"""
    return leaves


def is_user_app(v):
    return v.k == 'a' and v.a[0].startswith('W::') and v.a[0].endswith('operator()')


def derivation(n, v, hists=None):
    """is v a derivation of all sources' pending values, in order? -> (ok, why, [history per parent])"""
    if is_user_app(v):
        leaves = [l for x in v.a[1][1:] for l in flat(x)]
        what = 'the function applied'
    else:
        leaves = flat(v)
        what = 'the value'
    pcs = [n.parent_cur(l) for l in leaves]
    if len(leaves) != len(n.parents) or any(p is None for p in pcs) or [p[0] for p in pcs] != list(range(len(n.parents))):
        pl = [n.parent_last(l) for l in leaves]
        if any(pl):
            return False, '%s uses a visible instead of a pending source value' % what, None
        if any(has_moved(l) for l in leaves):
            return False, '%s uses a value already moved away' % what, None
        return False, '%s is not computed from the pending values of all sources in order: %s' % (what, show(v, 6)), None
    return True, '', [p[1] for p in pcs]


def user_rejects(n, p):
    """a user predicate over all sources returned false on this path"""
    for f, val in p.st.facts.items():
        if val is False and is_user_app(f) and derivation(n, f)[0]:
            return derivation(n, f)
    return None


def rule_derived(ctx, g, shorts=('recompute', 'refresh', 'send_down')):
    """recompute/refresh/send_down leave pending == derivation(pending values of all sources)"""
    for n in g.nodes:
        if n.is_root or n.hastag:
            continue
        for c, ps in n.ctors:
            for s in ps:
                if s.exc is not None:
                    ctx.ob('derived-at-construction', nm(n), False, 'construction fails with an exception',
                           n.P.loc(c.get('loc')))
                    continue
                obj = s.mem[n.base]
                v = n.at(obj, n.cur)
                ok, why, h = derivation_ctor(n, obj, v, s)
                ctx.ob('derived-at-construction', nm(n), ok, why, n.P.loc(c.get('loc')), kit.trace_lines(n.it, s))
        for short in shorts:
            for p in n.by(short):
                if p.st.exc is not None:
                    ctx.ob('derived-value', label(n, p.m), False, 'an exception escapes', where_of(p), tr(p))
                    continue
                v = n.get(p.st, n.cur)
                hs = None
                if v is n.cur0():
                    ok, why = False, 'the value is not recomputed from its sources'
                    for f, val in p.st.facts.items():
                        if f.k == 'a' and f.a[0] == '==' and val:
                            a, b = f.a[1]
                            d = b if a is n.cur0() else a if b is n.cur0() else None
                            if d is not None:
                                ok2, why2, h2 = derivation(n, d)
                                if ok2:
                                    ok, why, hs = True, '', h2
                                else:
                                    why = why2
                    r = user_rejects(n, p)
                    if not ok and r:
                        ok, why, hs = True, '', r[2]
                else:
                    ok, why, hs = derivation(n, v)
                    if v.k == 'r' and not ok and componentwise(n, p, v):
                        ok, hs = True, None
                ctx.ob('derived-value', label(n, p.m), ok, why, where_of(p), tr(p))
                if ok and short == 'refresh' and hs is not None:
                    miss = [i for i, h in enumerate(hs) if not any(x.endswith('::refresh') for x in h)]
                    ctx.ob('refresh-sources', label(n, p.m), not miss,
                           'source %s is read without being refreshed first' % miss, where_of(p), tr(p))


def componentwise(n, p, v):
    """tuple assigned member by member"""
    return False


def derivation_ctor(n, obj, v, st):
    """like derivation, for the sources handed to the constructor"""
    # evaluate the parent pointers in the constructed object
    ptrs = []
    for t in n.parents:
        path = []
        x = t
        while not (x.k == 's' and x.a[0] == 'node'):
            path.append(x.a[1])
            x = x.a[0]
        q = obj
        for k in reversed(path):
            q = n.it.field(q, k)
        ptrs.append(q)
    old = n.parents
    n.parents = ptrs
    try:
        ok, why, h = derivation(n, v)
        if not ok:
            # a transducer that rejects the initial value leaves a default constructed one
            for f, val in st.facts.items():
                if val is False and is_user_app(f) and derivation(n, f)[0] and v.k == 'a' and v.a[0] == 'new':
                    return True, '', None
        return ok, why, h
    finally:
        n.parents = old


def parent_calls(n, p, short):
    out = []
    for i, e in enumerate(p.evs):
        if e.kind in ('vcall', 'call') and e.name.endswith('::' + short) and e.this is not None:
            for k, q in enumerate(n.parents):
                if e.this is q:
                    out.append((i, k, e))
    return out


def rule_send_up(ctx, g):
    """a write to a derived node reaches every source once, with its part, computed from refreshed sources"""
    for n in g.nodes:
        if n.is_root or n.hastag:
            continue
        for p in n.by('send_up'):
            if p.st.exc is not None:
                ctx.ob('write-up', label(n, p.m), False, 'an exception escapes', where_of(p), tr(p))
                continue
            calls = parent_calls(n, p, 'send_up')
            cnt = [sum(1 for _, k, _ in calls if k == i) for i in range(len(n.parents))]
            if not ctx.ob('write-up', label(n, p.m), all(c == 1 for c in cnt),
                          'sources receive %s writes' % cnt, where_of(p), tr(p)):
                continue
            parts = {k: e.vals[1] for _, k, e in calls}
            first = min(i for i, _, _ in calls)
            wholes = set()
            ok, why = True, ''
            for k, v in parts.items():
                if len(n.parents) == 1:
                    wholes.add(v)
                elif v.k == 'f' and v.a[1] == 'e%d' % k:
                    wholes.add(v.a[0])
                elif v.k == 'f' and isinstance(v.a[1], str) and v.a[1][0] == 'e':
                    ok, why = False, 'source %d receives element %s of the new value' % (k, v.a[1][1:])
                elif v.k == 'mv':
                    ok, why = False, 'a source receives a value already moved away'
                else:
                    ok, why = False, 'source %d receives %s' % (k, show(v, 5))
            if ok and len(wholes) != 1:
                ok, why = False, 'the sources receive parts of different values'
            if ok:
                w = wholes.pop()
                if w is S('val'):
                    if len(n.parents) == 1:
                        ok, why = False, 'the written value is sent up untranslated'
                elif is_user_app(w):
                    leaves = [l for x in w.a[1][1:] for l in flat(x)]
                    if not leaves or leaves[-1] is not S('val'):
                        ok, why = False, 'the written value is not what is put into the whole: %s' % \
                            (show(leaves[-1], 4) if leaves else '')
                    else:
                        rest = leaves[:-1]
                        pcs = [n.parent_cur(l) for l in rest]
                        if any(n.parent_last(l) for l in rest):
                            ok, why = False, 'the new whole is computed against a visible instead of the pending source value'
                        elif any(x is None for x in pcs) or [x[0] for x in pcs] != list(range(len(n.parents))):
                            ok, why = False, 'the new whole is not computed against all sources in order: %s' % show(w, 6)
                        else:
                            miss = [i for i, h in pcs if not any(x.endswith('::refresh') for x in h)]
                            bad = [i for i, h in pcs if any(x.endswith('::send_up') for x in h)]
                            if miss:
                                ok, why = False, 'source %s is not refreshed before the new whole is computed' % miss
                            elif bad:
                                ok, why = False, 'the new whole is computed after a source was already written'
                else:
                    ok, why = False, 'the new whole %s is not the result of writing the value through' % show(w, 5)
            ctx.ob('write-computed-from-latest', label(n, p.m), ok, why, calls[0][2].where, tr(p))
            um = [e for e in p.evs if e.kind == 'usemoved' and e.where.startswith(kit.REPO)]
            ctx.ob('no-moved-values', label(n, p.m), not um, 'a value is used after being moved away', um[0].where if um else '', um and tr(p))


def rule_write_goes_up(ctx, g):
    """writing to a derived node changes its own pending value only through what its sources hold"""
    for n in g.nodes:
        if n.is_root or n.hastag:
            continue
        for p in n.by('send_up'):
            if p.st.exc is not None:
                continue
            v = n.get(p.st, n.cur)
            ok = v is n.cur0() or derivation(n, v)[0] or (v.k == 'd' and n.parent_cur(v) is not None)
            ctx.ob('write-goes-through-sources', label(n, p.m), ok,
                   'a write changes the pending value of the derived node itself to %s' % show(v, 5), where_of(p), tr(p))


def rule_root_write(ctx, g):
    """a write to a root replaces its pending value (unless equal)"""
    for n in g.nodes:
        if not n.is_root:
            continue
        for p in n.by('send_up'):
            v = n.get(p.st, n.cur)
            ok = v is S('val') or (v is n.cur0() and same(p.st, n.cur0(), S('val')))
            ctx.ob('write-replaces-pending', label(n, p.m), ok, 'the pending value becomes %s' % show(v, 4), where_of(p), tr(p))


def rule_uncomparable(ctx, g):
    """a write of a value that cannot be compared always counts as a change"""
    for n in g.nodes:
        if not n.is_root or has_eq(n):
            continue
        D, _ = dirty_flag(n)
        for p in n.by('send_up'):
            if p.st.exc is not None:
                continue
            v = n.get(p.st, n.cur)
            told = events(n, p, OBS)
            ok = v is S('val') and (D is None or bool(told) or mark(n, p.st, D) is not FALSE and
                                    not (mark(n, p.st, D) is f0(n, D) and p.st.facts.get(f0(n, D)) is False))
            ctx.ob('uncomparable-changes', label(n, p.m), ok, 'a write of a value without equality does not count as a change',
                   where_of(p), tr(p))


def rule_kinds(ctx, g):
    """constants never change, states only when written, sensors re-read exactly once"""
    for n in g.nodes:
        if not n.is_root:
            continue
        kind = n.kind
        for p in n.all_paths():
            short = p.m['short']
            calls = events(n, p, USER)
            v = n.get(p.st, n.cur)
            if 'sensor' in kind:
                if short in ('recompute', 'send_down'):
                    ctx.ob('sensor-read-once', label(n, p.m), len(calls) == 1,
                           'the sensor function is called %d times' % len(calls), where_of(p), tr(p))
                    if len(calls) == 1:
                        r = calls[0][1].res
                        okv = v is r or (v is n.cur0() and same(p.st, v, r))
                        ctx.ob('sensor-value', label(n, p.m), okv, 'the value read is not what becomes pending', where_of(p), tr(p))
                else:
                    ctx.ob('sensor-read-once', label(n, p.m), not calls, 'the sensor function is called in %s' % short,
                           where_of(p), tr(p))
            elif short != 'send_up':
                ctx.ob('changes-only-when-written', label(n, p.m), v is n.cur0(), 'the value changes in %s' % short,
                       where_of(p), tr(p))
        for c, ps in n.ctors:
            for s in ps:
                if s.exc is not None:
                    continue
                v = n.at(s.mem[n.base], n.cur)
                ue = [e for e in s.events() if e.kind in ('call', 'invoke') and e.name.startswith('W::')
                      and e.name.endswith('operator()')]
                if 'sensor' in kind:
                    ctx.ob('sensor-initial', nm(n), len(ue) == 1 and v is ue[0].res,
                           'the sensor function is called %d times at construction, initial value %s' % (len(ue), show(v, 4)),
                           n.P.loc(c.get('loc')))
                else:
                    ctx.ob('initial-value', nm(n), v is S('arg0'), 'the initial value is %s' % show(v, 4), n.P.loc(c.get('loc')))


def rule_setter(ctx, g):
    for n in g.nodes:
        if not n.hastag or n.is_root:
            continue
        for p in n.by('send_up'):
            calls = [e for i, e in events(n, p, USER) if e.kind in ('call', 'invoke')]
            ok = len(calls) == 1 and len(calls[0].vals) >= 2 and calls[0].vals[-1] is S('val')
            ctx.ob('setter-called-once', label(n, p.m), ok,
                   'the setter function is called %d times%s' % (len(calls), '' if len(calls) != 1 else ' with %s' % show(calls[0].vals[-1], 4)),
                   where_of(p), tr(p))
            up = parent_calls(n, p, 'send_up')
            ctx.ob('source-not-written', label(n, p.m), not up, 'the source is written directly', up[0][2].where if up else '', up and tr(p))
            c = n.get(p.st, n.cur)
            okc = c is S('val') or (c is n.cur0() and same(p.st, c, S('val')))
            ctx.ob('setter-keeps-written', label(n, p.m), okc, 'the pending value becomes %s instead of the written one' % show(c, 5),
                   where_of(p), tr(p))
            um = [e for e in p.evs if e.kind == 'usemoved' and e.where.startswith(kit.REPO)]
            ctx.ob('no-moved-values', label(n, p.m), not um, 'a value is used after being moved away', um[0].where if um else '', um and tr(p))
            # a write made next through a cursor derived from this one refreshes it first
            if p.st.exc is None and (c is S('val') or okc):
                fs = n.method('refresh')
                if len(fs) != 1:
                    ctx.note('%s: refresh not found' % nm(n))
                for f in fs[:1] if len(fs) == 1 else []:
                    for s2, _ in n.it.call(f, n.this, [], p.st.copy(), n.fr, ('run', f['id'], 'after'), '?'):
                        d = n.get(s2, n.cur)
                        ctx.ob('write-survives-refresh', label(n, p.m), s2.exc is not None or d is c or same(s2, d, c),
                               'refreshing the cursor, as a write through one derived from it does, replaces the written value by %s' % show(d, 5),
                               n.P.loc(f.get('loc')), kit.trace_lines(n.it, s2))
        # on any other propagation it takes its source's value: exclude the path where
        # a mark set by an automatic write is consumed
        marks = own_marks(n)
        for short in ('recompute', 'send_down'):
            for p in n.by(short):
                v = n.get(p.st, n.cur)
                if any(p.st.facts.get(f0(n, m)) is True for m in marks):
                    for m in marks:
                        ctx.ob('setter-mark-consumed', label(n, p.m), mark(n, p.st, m) is FALSE,
                               'the mark set by an automatic write is not cleared', where_of(p), tr(p))
                    continue
                pc = n.parent_cur(v)
                ok = pc is not None or (v is n.cur0() and any(
                    f.k == 'a' and f.a[0] == '==' and val and any(n.parent_cur(x) is not None for x in f.a[1])
                    and any(x is v for x in f.a[1]) for f, val in p.st.facts.items()))
                ctx.ob('setter-follows-source', label(n, p.m), ok, 'the value does not follow the source', where_of(p), tr(p))
        for p in n.by('send_up'):
            for m in marks:
                ctx.ob('setter-mark-consumed', label(n, p.m), mark(n, p.st, m) is not TRUE or f0(n, m) is TRUE,
                       'a later propagation would ignore the source', where_of(p), tr(p))
        for c, ps in n.ctors:
            for s in ps:
                if s.exc is None:
                    obj = s.mem[n.base]
                    v = n.at(obj, n.cur)
                    ok, why, _ = derivation_ctor(n, obj, v, s)
                    ctx.ob('setter-initial', nm(n), ok, why, n.P.loc(c.get('loc')))
                    for m in marks:
                        ctx.ob('setter-mark-consumed', nm(n), mark_in(n, obj, m) is FALSE, 'a new cursor ignores its source',
                               n.P.loc(c.get('loc')))


def own_marks(n):
    """boolean members of the setter node itself whose truth makes recompute keep the own value"""
    out = []
    own = {f['id'] for f in n.P.records[n.rec['i']].get('fields', ())}
    for f in n.flags:
        if f['path'][0] not in own or 'in' in f:
            continue
        out.append(f['id'])
    return out

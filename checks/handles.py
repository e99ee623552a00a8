"""Rules over handles (reader/cursor/writer/state/sensor), watching, and commit()."""
from engine import kit
from engine.interp import *
from engine.paths import *
from engine.pairs import *
from checks.graph import live_iterator
from checks.derive import rewrite, untouched

HOOK = 'boost::intrusive::'


class Handles:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = P_ = kit.export('api.cpp')
        self.it = Interp(P_)
        self.fns = [f for f in P_.fnrefs.values() if f['id'] in P_.functions and f['bname'].startswith('W::')
                    and f['bname'].count('::') == 1]
        if not self.fns:
            raise kit.Broken('no witness functions')
        self.cache = {}

    def by(self, prefix):
        out = [f for f in self.fns if f['short'].startswith(prefix)]
        if not out:
            raise kit.Broken('no witness function ' + prefix)
        return out

    def paths(self, f):
        if f['id'] not in self.cache:
            rs = run_fn(self.it, f)
            self.ctx.paths += len(rs)
            self.cache[f['id']] = rs
        return self.cache[f['id']]

    # --- parts of a handle, found by type
    def rec(self, f, i):
        return self.P.rec_of_type(f['params'][i]['t'])

    def node_field(self, rec):
        fs = [x for x in self.P.all_fields(rec['i']) if self.P.isrec(x['t'])
              and self.P.rec_of_type(x['t'])['bname'] == 'std::shared_ptr' and is_node_ptr(self.P, self.P.rec_of_type(x['t']))]
        if len(fs) != 1:
            raise kit.Broken('cannot locate the node of ' + rec['full'])
        return fs[0]

    def slots_field(self, rec):
        fs = [x for x in self.P.all_fields(rec['i']) if self.P.isrec(x['t'])
              and self.P.rec_of_type(x['t'])['bname'].startswith(HOOK)]
        return fs[0]['id'] if len(fs) == 1 else None

    def conns_fields(self, rec):
        """containers owning the callbacks registered through the handle"""
        out = []
        for x in self.P.all_fields(rec['i']):
            if self.P.isrec(x['t']) and self.P.rec_of_type(x['t'])['bname'].startswith('std::') and \
                    ('connection' in self.P.tname(x['t']) or 'slot' in self.P.tname(x['t'])):
                out.append(x['id'])
        return out

    def node(self, f, i=0):
        return mk('f', S('arg%d' % i), self.node_field(self.rec(f, i))['id'])

    def node_rec(self, rec):
        r = self.P.rec_of_type(self.node_field(rec)['t'])
        return self.P.rec_of_type(r['targs'][0]['t'])

    def view(self, f, acc, st=None, i=0):
        """the value last()/current() of the handle's node gives (in state st)"""
        n = self.node(f, i)
        nr = self.node_rec(self.rec(f, i))
        s = St()
        if st is not None:
            s.mem.update(st.mem)
        return accessor(self.it, s, n, nr['i'], acc)


def tr(h, st):
    return kit.trace_lines(h.it, st)


def where(st, kinds=('call', 'vcall', 'cont', 'throw', 'W')):
    for e in reversed(st.events()):
        if e.kind in kinds and e.where.startswith(kit.REPO):
            return e.where
    return ''


def known(st, t):
    """truth of term t on the path: True/False/None"""
    if t is NULL:
        return False
    if t.k == 'p':
        return True
    return st.facts.get(t)


def rule_commit(ctx, h):
    """commit(): all roots propagate before any is notified, each exactly once"""
    for f in h.by('commit_'):
        nodes = [h.node(f, i) for i in range(len(f['params']))]
        for st, _ in h.paths(f):
            if st.exc is not None:
                continue
            evs = st.events()
            down = {n: [] for n in nodes}
            noti = {n: [] for n in nodes}
            other = False
            for i, e in enumerate(evs):
                if e.kind == 'vcall':
                    s = e.name.rsplit('::', 1)[-1]
                    d = {'send_down': down, 'notify': noti}.get(s)
                    if d is not None and e.this in d:
                        d[e.this].append(i)
                    elif d is not None:
                        other = True
            if other and any(x.kind == 'loopiter' for x in evs):
                ctx.note('commit through a loop over roots: order only')
                ds = [i for i, e in enumerate(evs) if e.kind == 'vcall' and e.name.endswith('::send_down')]
                ns = [i for i, e in enumerate(evs) if e.kind == 'vcall' and e.name.endswith('::notify')]
                ctx.ob('commit-order', f['short'], not ds or not ns or max(ds) < min(ns),
                       'a root is notified before all roots have propagated', where(st), tr(h, st))
                continue
            w = where(st)
            for k, n in enumerate(nodes):
                ctx.ob('commit-propagates-every-root', '%s root %d' % (f['short'], k), len(down[n]) == 1,
                       'the root is propagated %d times' % len(down[n]), w, tr(h, st))
                ctx.ob('commit-notifies-every-root', '%s root %d' % (f['short'], k), len(noti[n]) >= 1,
                       'the root is not notified', w, tr(h, st))
            ds = [i for x in down.values() for i in x]
            ns = [i for x in noti.values() for i in x]
            ctx.ob('commit-order', f['short'], not ds or not ns or max(ds) < min(ns),
                   'a root is notified before all roots have propagated', w, tr(h, st))
    ctx.absorb(h.it)


def rule_get(ctx, h):
    """reading delivers the visible value of the handle's node"""
    for f in h.by('get_'):
        want = h.view(f, 'last')
        n = h.node(f)
        for st, v in h.paths(f):
            if st.exc is not None:
                continue
            if known(st, n) is False:
                continue
            got = h.it.load(st, v)
            ctx.ob('read-is-visible-value', f['short'], got is want, 'reading gives %s, not the visible value %s' % (
                show(got, 6), show(want, 6)), where(st) or h.P.loc(f.get('loc')), tr(h, st))
    ctx.absorb(h.it)


def rule_get_safe(ctx, h):
    """reading neither modifies the handle nor uses an empty one"""
    for f in h.by('get_') + h.by('bind_') + h.by('nudge_') + h.by('set_') + h.by('update_'):
        n = h.node(f)
        rs = h.paths(f)
        for st, v in rs:
            if f['short'].startswith('get_'):
                ch = st.mem.get(('o', 'arg0')) is S('arg0') and ('x', n) not in st.mem
                ctx.ob('read-does-not-modify', f['short'], ch or st.mem.get(('x', n)) is mk('d', n),
                       'reading changes the handle or its value', where(st), tr(h, st))
            if not node_used(st, n) and not (f['short'].startswith('get_') and st.exc is None):
                continue
            k = known(st, n)
            ctx.ob('empty-handle-is-reported', f['short'], k is True,
                   'an empty handle is dereferenced', where(st) or h.P.loc(f.get('loc')), tr(h, st))
        ctx.ob('empty-handle-is-reported', f['short'] + ' path', any(s.exc is not None for s, _ in rs),
               'no path reports an empty handle', h.P.loc(f.get('loc')))
    ctx.absorb(h.it)


def node_used(st, n):
    """does the path read or write the node itself?"""
    if ('x', n) in st.mem:
        return True
    d = mk('d', n)
    for e in st.events():
        if e.kind == 'F':
            continue
        if e.this is n or any(hasattr(x, 'k') and contains(x, lambda t: t is d) for x in list(e.args) + list(e.vals or ())):
            return True
    return False


def rule_set(ctx, h):
    """handle.set/update: one write of exactly the value to the handle's node"""
    for f in h.by('set_') + h.by('update_'):
        n = h.node(f)
        upd = f['short'].startswith('update_')
        for st, v in h.paths(f):
            if st.exc is not None:
                continue
            w = where(st)
            evs = st.events()
            ups = [(i, e) for i, e in enumerate(evs) if e.kind == 'vcall' and e.name.endswith('::send_up')]
            ctx.ob('write-goes-to-node', f['short'], len(ups) == 1 and ups[0][1].this is n,
                   '%d writes are sent (%s)' % (len(ups), ', '.join(show(e.this, 4) for _, e in ups)), w, tr(h, st))
            if len(ups) != 1:
                continue
            got = ups[0][1].vals[1]
            if not upd:
                ctx.ob('write-is-the-value', f['short'], got is S('arg1'),
                       'the value written is %s' % show(got, 6), w, tr(h, st))
            else:
                calls = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and e.name.startswith('W::Fn')]
                ctx.ob('update-calls-function-once', f['short'], len(calls) == 1,
                       'the function is called %d times' % len(calls), w, tr(h, st))
                if len(calls) != 1:
                    continue
                i, e = calls[0]
                ctx.ob('write-is-the-value', f['short'], got is e.res,
                       'the value written is %s, not the result of the function' % show(got, 6), w, tr(h, st))
                fresh = [j for j, x in enumerate(evs[:i]) if x.kind == 'vcall' and x.this is n and x.name.endswith('::refresh')]
                arg = e.vals[1]
                cur = accessor(h.it, _before(st, n, evs, fresh), n, h.node_rec(h.rec(f, 0))['i'], 'current')
                ctx.ob('update-uses-latest-pending', f['short'], bool(fresh) and arg is cur,
                       'the function receives %s; the pending value is only up to date after refreshing the node' % show(arg, 7),
                       e.where, tr(h, st))
            um = [e for e in evs if e.kind == 'usemoved' and e.where.startswith(kit.REPO)]
            ctx.ob('no-moved-values', f['short'], not um, 'a moved-from value is used', um[0].where if um else '', um and tr(h, st))
    ctx.absorb(h.it)


def _before(st, n, evs, fresh):
    s = St()
    v = mk('d', n)
    for j in fresh:
        v = A('after', S(evs[j].name), v)
    s.mem[('x', n)] = v
    return s


# ------------------------------------------------------------ watching
def pushes(v, what):
    """how many times `what` was appended to container term v, and the original"""
    k = 0
    while v.k == 'a' and v.a[0] in ('push', 'after', 'insert') and len(v.a[1]) >= 2:
        if v.a[0] == 'push':
            if v.a[1][1] is what:
                k += 1
            v = v.a[1][0]
        elif v.a[0] == 'after':
            v = v.a[1][1]
        else:
            if any(x is what for x in v.a[1][1:]):
                k += 1
            v = v.a[1][0]
    return k, v


def observers(h, st, n):
    """term(s) of the intrusive lists in the node n"""
    v = st.mem.get(('x', n))
    return v if v is not None else mk('d', n)


def registered(h, st, n, what):
    """how often `what` was appended to a list inside node n on this path"""
    k = 0
    for e in st.events():
        if e.kind == 'cont' and e.name in ('push_back', 'push_front', 'insert') and e.this is not None and e.this.k == 'p' \
                and e.this.a[0] == ('x', n) and e.args and any(a is what for a in e.args):
            k += 1
    return k


def anyreg(h, st, what):
    out = []
    for e in st.events():
        if e.kind == 'cont' and e.name in ('push_back', 'push_front', 'insert') and e.this is not None and \
                e.args and any(a is what for a in e.args):
            out.append(e)
    return out


def unlinked(h, st, ptr):
    """positions at which the handle's hook is unlinked"""
    return [i for i, e in enumerate(st.events()) if e.kind == 'call' and e.this is ptr and e.name.startswith(HOOK)
            and e.name.endswith('::unlink')]


def was_empty(h, st, f, rec):
    """was the handle without callbacks initially? True/False/None"""
    sl = h.slots_field(rec)
    for k, v in st.facts.items():
        if k.k == 'a' and k.a[0] == '==' and isc(k.a[1][1]) and k.a[1][1].a[0] == 0 and is_size(k.a[1][0]):
            c = k.a[1][0].a[1][0]
            c, _ = strip_after(c)
            if c.k == 'f' and (c.a[1] == sl or c.a[1] in h.conns_fields(rec)):
                b, _ = strip_after(c.a[0])
                if b is S('arg0'):
                    return v
    return None


def linked_test(h, st):
    """is_linked() of the handle was tested: True/False/None"""
    for k, v in st.facts.items():
        if k.k == 'a' and 'is_linked' in k.a[0]:
            return v
    return None


def new_slot(h, st):
    """(slot, function) registered with the handle's own signal"""
    out = []
    for b, v in st.mem.items():
        if b[0] == 'h' and v.k == 'r' and isinstance(v.a[0], int):
            r = h.P.records[v.a[0]]
            if any(h.P.records[x]['bname'].endswith('signal::slot_base') for x in h.P.bases_of(r['i'])):
                out.append((P(b), v))
    return out


def rule_watch(ctx, h):
    """watch/bind: the callback is stored once with the handle, and the handle is linked to its node"""
    me = P(('o', 'arg0'))
    for f in h.by('watch_') + h.by('bind_'):
        if f['short'] == 'watch_free' or f['short'] == 'watch_mfree':
            # watch(handle, f) == handle.watch(f) on the very handle
            pass
        rec = h.rec(f, 0)
        n = h.node(f)
        sl = h.slots_field(rec)
        cfs = h.conns_fields(rec)
        for st, v in h.paths(f):
            what = f['short']
            w = where(st, ('cont',)) or where(st)
            if st.exc is not None:
                if not (what.startswith('bind_') and known(st, n) is False):
                    ctx.ob('watch-registers', what, False, 'an exception escapes', w, tr(h, st))
                continue
            slots = new_slot(h, st)
            ctx.ob('watch-registers', what, len(slots) == 1, '%d callback slots are made' % len(slots), w, tr(h, st))
            if len(slots) != 1:
                continue
            sp, sv = slots[0]
            held = [x for _, x in sv.a[2]]
            ctx.ob('watch-keeps-callback', what, any(x is S('arg1') for x in held),
                   'the slot does not hold the callback passed in: %s' % show(sv, 5), w, tr(h, st))
            hv = h.it.load(st, me)
            k, base = pushes(h.it.field(hv, sl), sp)
            ctx.ob('watch-registers', what + ' slot', k == 1, 'the callback is registered %d times' % k, w, tr(h, st))
            own = sum(1 for c in cfs if contains(h.it.field(hv, c), lambda x: x is sp))
            ctx.ob('callback-owned-by-handle', what, own == 1,
                   'the handle does not own the callback (it is dropped or leaked)', w, tr(h, st))
            kept = all(_kept(h.it.field(hv, c), mk('f', S('arg0'), c)) for c in cfs)
            ctx.ob('earlier-callbacks-kept', what, kept, 'earlier callbacks of the handle are dropped', w, tr(h, st))
            # linking
            reg = registered(h, st, n, me)
            e, kn = was_empty(h, st, f, rec), known(st, n)
            lt = linked_test(h, st)
            if lt is not None:
                want = (not lt) and kn is not False
                ctx.ob('watch-links-handle', what, reg == (1 if want else 0),
                       'the handle is linked %d times to its node' % reg, w, tr(h, st))
            elif kn is False:
                ctx.ob('watch-links-handle', what, reg == 0, 'an empty handle is linked', w, tr(h, st))
            elif e is True:
                ctx.ob('watch-links-handle', what, reg == 1,
                       'the first callback links the handle %d times to its node' % reg, w, tr(h, st))
            elif e is False:
                ctx.ob('watch-links-handle', what, reg == 0,
                       'the handle is linked again although it already is', w, tr(h, st))
            else:
                ctx.ob('watch-links-handle', what, False,
                       'the handle is linked %d times whether or not it already has callbacks' % reg, w, tr(h, st))
            if f['short'].startswith('bind_'):
                evs = st.events()
                calls = [x for x in evs if x.kind == 'call' and x.name == 'W::Cb::operator()']
                want = h.view(f, 'last')
                ctx.ob('bind-calls-back-once', what, len(calls) == 1 and calls[0].vals[1] is want,
                       'binding calls back %d times%s' % (len(calls), ' with %s instead of the visible value' % show(
                           calls[0].vals[1], 5) if calls else ''), calls[0].where if calls else w, tr(h, st))
            else:
                calls = [x for x in st.events() if x.kind == 'call' and x.name == 'W::Cb::operator()']
                ctx.ob('watch-does-not-call', what, not calls, 'watching calls back at once', w, tr(h, st))
            um = [x for x in st.events() if x.kind == 'usemoved' and x.where.startswith(kit.REPO)]
            ctx.ob('no-moved-values', what, not um, 'a moved-from value is used', um[0].where if um else '', um and tr(h, st))
    ctx.absorb(h.it)


def _kept(v, orig):
    while True:
        if v is orig:
            return True
        if v.k == 'a' and v.a[0] in ('push', 'insert'):
            v = v.a[1][0]
        elif v.k == 'a' and v.a[0] == 'after':
            v = v.a[1][1]
        else:
            break
    v, _ = strip_after(v)
    if v.k == 'f':
        b, _ = strip_after(v.a[0])
        return v.a[1] == orig.a[1] and b is orig.a[0]
    return False


def rule_unbind(ctx, h):
    me = P(('o', 'arg0'))
    for f in h.by('unbind_'):
        rec = h.rec(f, 0)
        for st, v in h.paths(f):
            hv = h.it.load(st, me)
            gone = all(_empty(h, st, h.it.field(hv, c)) for c in h.conns_fields(rec))
            ctx.ob('unbind-drops-callbacks', f['short'], gone, 'callbacks survive unbind()', where(st), tr(h, st))
            nreg = anyreg(h, st, me)
            ctx.ob('unbind-unlinks', f['short'], bool(unlinked(h, st, me)) and not nreg,
                   'the handle stays linked to its node after unbind()', where(st), tr(h, st))
    ctx.absorb(h.it)


def _empty(h, st, v):
    s = h.it.size(v)
    while v.k == 'f' and v.a[0].k == 'a' and v.a[0].a[0] == 'after':
        v = h.it.field(v.a[0].a[1][1], v.a[1])
        s = h.it.size(v)
    return isc(s) and s.a[0] == 0


def rule_assign(ctx, h):
    """assigning a handle redirects exactly its own callbacks to the newly observed value"""
    me, other = P(('o', 'arg0')), P(('o', 'arg1'))
    for f in h.by('assign_'):
        rec, orec = h.rec(f, 0), h.rec(f, 1)
        n, o = h.node(f, 0), h.node(f, 1)
        nf, of = h.node_field(rec)['id'], h.node_field(orec)['id']
        for st, v in h.paths(f):
            if st.exc is not None:
                ctx.ob('assign-follows', f['short'], False, 'an exception escapes', where(st), tr(h, st))
                continue
            what = f['short']
            w = where(st)
            hv, ov = h.it.load(st, me), h.it.load(st, other)
            ctx.ob('assign-follows', what, h.it.field(hv, nf) is o, 'the handle refers to %s afterwards' % show(
                h.it.field(hv, nf), 5), w, tr(h, st))
            un = unlinked(h, st, me)
            regs = [i for i, e in enumerate(st.events()) if e.kind == 'cont' and e.name in ('push_back', 'push_front', 'insert')
                    and any(a is me for a in e.args)]
            ctx.ob('assign-unlinks-first', what, bool(un) and (not regs or min(un) < min(regs)),
                   'the handle stays linked to the value observed before', w, tr(h, st))
            wrong = [e for e in anyreg(h, st, me) if not (e.this.k == 'p' and e.this.a[0] == ('x', o))]
            ctx.ob('assign-links-new', what, not wrong, 'the callbacks are attached to another value than the one assigned',
                   wrong[0].where if wrong else w, tr(h, st))
            reg = registered(h, st, o, me)
            e, kn = was_empty(h, st, f, rec), known(st, o)
            if kn is False:
                ctx.ob('assign-links-new', what, reg == 0, 'an empty value is observed', w, tr(h, st))
            elif e is True:
                ctx.ob('assign-links-new', what, reg in (0, 1), 'linked %d times' % reg, w, tr(h, st))
                # without callbacks a link would make a later first watch() link twice
                ctx.ob('no-link-without-callbacks', what, reg == 0,
                       'a handle without callbacks is linked; its first callback links it again', w, tr(h, st))
            elif e is False and kn is True:
                ctx.ob('assign-links-new', what, reg == 1,
                       'the callbacks of the assigned handle are attached %d times to the new value' % reg, w, tr(h, st))
            else:
                ctx.ob('assign-links-new', what, False, 'relinked %d times without looking at whether there are callbacks' % reg,
                       w, tr(h, st))
            for c in h.conns_fields(rec) + [h.slots_field(rec)]:
                ctx.ob('assign-keeps-own-callbacks', what, _kept(h.it.field(hv, c), mk('f', S('arg0'), c)),
                       'the callbacks of the assigned handle are lost or replaced', w, tr(h, st))
            for c in h.conns_fields(orec) + [h.slots_field(orec)]:
                x = h.it.field(ov, c)
                ctx.ob('assign-leaves-source-callbacks', what, _kept(x, mk('f', S('arg1'), c)) ,
                       'the callbacks of the source handle are changed', w, tr(h, st))
            ctx.ob('assign-leaves-source-callbacks', what + ' link', not unlinked(h, st, other) and not anyreg(h, st, other),
                   'the source handle is relinked', w, tr(h, st))
            if 'assign_m' not in what:
                ctx.ob('copy-leaves-source', what, h.it.field(ov, of) is o, 'the source of a copy is changed', w, tr(h, st))
    ctx.absorb(h.it)


def rule_copy(ctx, h):
    """a copied or moved handle observes the same value and has no callbacks of its own"""
    other = P(('o', 'arg0'))
    for f in h.by('copyr_') + h.by('mover_'):
        rec = h.P.rec_of_type(f['ret'])
        orec = h.rec(f, 0)
        o = h.node(f, 0)
        nf = h.node_field(rec)['id']
        for st, v in h.paths(f):
            what = f['short']
            w = where(st) or h.P.loc(f.get('loc'))
            if st.exc is not None:
                continue
            got = h.it.field(v, nf)
            ctx.ob('copy-observes-same', what, got is o, 'the copy refers to %s' % show(got, 5), w, tr(h, st))
            for c in h.conns_fields(rec) + [h.slots_field(rec)]:
                ctx.ob('copy-has-no-callbacks', what, _empty(h, st, h.it.field(v, c)),
                       'callbacks are duplicated or taken over by the copy', w, tr(h, st))
            regs = [e for e in st.events() if e.kind == 'cont' and e.name.startswith('push')]
            ctx.ob('copy-has-no-callbacks', what + ' link', not regs, 'making a copy links it to the value', w, tr(h, st))
            ov = h.it.load(st, other)
            for c in h.conns_fields(orec) + [h.slots_field(orec)]:
                ctx.ob('copy-leaves-source-callbacks', what, h.it.field(ov, c) is mk('f', S('arg0'), c),
                       'the callbacks of the source handle are changed', w, tr(h, st))
            ctx.ob('copy-leaves-source-callbacks', what + ' link', not unlinked(h, st, other), 'the source is unlinked', w, tr(h, st))
            um = [x for x in st.events() if x.kind == 'usemoved' and x.where.startswith(kit.REPO)]
            ctx.ob('no-moved-values', what, not um, 'a moved-from value is used', um[0].where if um else '', um and tr(h, st))
    ctx.absorb(h.it)


def rule_release(ctx, h):
    """what a handle registers is removed automatically when the handle or the callback is destroyed"""
    P_ = h.P
    n = 0
    for r in P_.records:
        if r['bname'].endswith('lager::detail::signal::slot_base') and r.get('def'):
            n += 1
            hooks = [P_.records[b] for b in P_.bases_of(r['i']) if P_.records[b]['bname'] == HOOK + 'generic_hook']
            auto = any('auto_unlink' in b['full'] or '(boost::intrusive::link_mode_type)2' in b['full'] for b in hooks)
            ctx.ob('callback-unlinks-on-destruction', r['full'], auto or _dtor_unlinks(h, r),
                   'destroying a callback leaves it in the list of its signal', P_.loc(r.get('loc')))
        if r['bname'] == 'lager::detail::signal::connection' and r.get('def'):
            n += 1
            own = [f for f in P_.all_fields(r['i']) if P_.isrec(f['t']) and P_.rec_of_type(f['t'])['bname'] == 'std::unique_ptr']
            ctx.ob('connection-owns-callback', r['full'], len(own) >= 1, 'the connection does not own its callback', P_.loc(r.get('loc')))
    if not n:
        raise kit.Broken('signal::slot_base / connection not found')


def _dtor_unlinks(h, r):
    for b in h.P.bases_of(r['i']):
        for f in h.P.fnrefs.values():
            if f.get('dtor') and f.get('rec') == b and f['id'] in h.P.functions:
                return True
    return False


def rule_signal(ctx, h):
    """a signal calls every slot exactly once, in order, with the arguments it was given"""
    me = ('o', 'arg0')
    for f in h.by('nudge_'):
        want = h.view(f, 'last')
        n = h.node(f)
        check_signal(ctx, h.it, f['short'], [x for x in h.paths(f) if known(x[0], n) is not False], me, want, h)
    # the signal itself and the forwarding of a handle
    for f in h.P.fnrefs.values():
        if f['short'] == 'operator()' and f.get('rname') in ('lager::detail::signal', 'lager::detail::forwarder') \
                and f['id'] in h.P.functions:
            args = [P(('o', 'a'))]
            st = St()
            st.mem[('o', 'self')] = S('self')
            st.mem[('o', 'a')] = S('a')
            fr = Frame(h.it.fid(0, 'top'), None, None, None, 0, None)
            rs = h.it.call(f, P(('o', 'self')), args, st, fr, ('run', f['id']), '?')
            check_signal(ctx, h.it, f['rname'].rsplit('::', 1)[-1] + '::operator()', rs, ('o', 'self'), S('a'), h)
        if f['short'] == 'operator()' and f.get('rname', '').endswith('signal::slot') and f['id'] in h.P.functions:
            st = St()
            st.mem[('o', 'self')] = S('self')
            st.mem[('o', 'a')] = S('a')
            fr = Frame(h.it.fid(0, 'top'), None, None, None, 0, None)
            for s, _ in h.it.call(f, P(('o', 'self')), [P(('o', 'a'))], st, fr, ('run', f['id']), '?'):
                calls = [e for e in s.events() if e.kind in ('call', 'invoke') and e.name.startswith('W::')]
                ctx.ob('slot-calls-callback-once', f['rec'] and h.P.records[f['rec']]['full'],
                       s.exc is None and len(calls) == 1 and calls[0].vals[1:] == (S('a'),),
                       'a slot calls its callback %d times' % len(calls), where(s), tr(h, s))
    ctx.absorb(h.it)


def slot_index(t, base):
    """index term when t points at the i-th slot in a list inside object `base`"""
    if t is None or t.k != 'p' or t.a[0] != base:
        return None
    for k in t.a[1]:
        if isinstance(k, tuple) and k[0] == 'i':
            return k[1]
    return None


def check_signal(ctx, it, what, rs, base, want, h):
    for st, _ in rs:
        if st.exc is not None:
            ctx.ob('signal-calls-every-slot', what, False, 'an exception escapes', where(st), tr(h, st))
            continue
        evs = st.events()
        lps = loops(evs)
        calls = [e for e in evs if e.kind == 'vcall' and e.name.endswith('slot_base::operator()')]
        if not lps:
            sz = any(k.k == 'a' and k.a[0] == '==' and v and is_size(k.a[1][0]) and isc(k.a[1][1]) and k.a[1][1].a[0] == 0
                     for k, v in st.facts.items())
            ctx.ob('signal-calls-every-slot', what, sz, 'callbacks are not called', where(st), tr(h, st))
            continue
        use = None
        for lp in lps:
            idxs = {}
            ok = True
            for k, seg in lp.iters:
                cs = [e for e in seg if e.kind == 'vcall' and e.name.endswith('slot_base::operator()')]
                if len(cs) != 1:
                    ok = False
                    idxs[k] = None
                else:
                    idxs[k] = slot_index(cs[0].this, base)
            if not calls and not lp.iters:
                use = (lp, idxs, True)
            elif any(v is not None for v in idxs.values()) or not ok:
                use = (lp, idxs, ok)
        if use is None:
            ctx.note(what + ': slots are reached in a way not understood')
            continue
        lp, idxs, ok = use
        cov, why = coverage(lp, st.facts, lambda k: idxs.get(k), is_size)
        if not ok:
            cov, why = 'bad', 'an iteration does not call exactly one callback'
        if cov == 'unknown':
            ctx.note('%s: loop not understood (%s)' % (what, why))
        ctx.ob('signal-calls-every-slot', what, cov in ('full', 'unknown'), why, lp.where, tr(h, st))
        for e in calls:
            ctx.ob('signal-passes-value', what, len(e.vals) >= 2 and e.vals[1] is want,
                   'a callback receives %s' % (show(e.vals[1], 6) if len(e.vals) > 1 else 'nothing'), e.where, tr(h, st))


def rule_signal_iteration(ctx, h):
    """the loop over callbacks holds no iterator that a callback can invalidate"""
    for f in h.P.fnrefs.values():
        if f['short'] == 'operator()' and f.get('rname') == 'lager::detail::signal' and f['id'] in h.P.functions:
            st = St()
            st.mem[('o', 'self')] = S('self')
            st.mem[('o', 'a')] = S('a')
            fr = Frame(h.it.fid(0, 'top'), None, None, None, 0, None)
            for s, _ in h.it.call(f, P(('o', 'self')), [P(('o', 'a'))], st, fr, ('run', f['id']), '?'):
                for lp in loops(s.events()):
                    if not any(e.kind == 'vcall' for k, seg in lp.iters for e in seg):
                        continue
                    bad = live_iterator(h.it, s, lp, lambda c: c.a[0] == ('o', 'self'))
                    ctx.ob('iteration-survives-callbacks', 'signal::operator()', bad is None,
                           'iterates over the live list of callbacks while they may remove themselves', lp.where, tr(h, s))
    ctx.absorb(h.it)

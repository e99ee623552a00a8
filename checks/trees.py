"""The tree debugger: its walks through the branches by induction over the depth of the cursor, its steps over any model.

The functions that walk the branches call themselves one level deeper.  They are found by that, and from then on a call
of one stands for what it is defined to do; one level of each is analysed against that definition with such a call inside.
"""
from engine import kit
from engine.interp import *
from engine.pairs import run_fn
from engine.models import unB
from engine.zone import Zone
from checks.lenses import same
from checks.effects import then_later
from checks.debuggers import Linear, Path, P_loc, trace, reducer_calls, run_effect, STEPS

RUNTIME = 'std::runtime_error'


class Tree(Linear):
    witness, cls, kind = 'debug_tree.cpp', 'lager::tree_debugger<', 'tree'
    fields = ('cursor', 'paused', 'init', 'branches', 'pending')
    recorded = ('init', 'branches', 'pending')
    past = 'branches'

    def __init__(self, ctx):
        super().__init__(ctx)
        ps = self.record(self.cls, '::pos_t')
        self.pf = {x['name']: x['id'] for x in ps['fields']}
        self.open = None
        self.walks = {}
        self.it.hook = self.discover
        for n in ('lookup_tree', 'append_tree'):
            run_fn(self.it, self.fns[n])
        for f in list(self.walks.values()):
            k = self.roles(f)
            self.walks[f['id']] = (f, k)
            if k is None:
                ctx.note('%s walks the branches in a way that is not analysed' % f['short'])
        self.look = next((f for f, k in self.walks.values() if k and 'model' not in k), None)
        self.app = next((f for f, k in self.walks.values() if k and 'model' in k), None)
        self.whole = None
        if self.look is None:
            # not a walk that calls itself: take it for what it is defined to do
            self.whole = next((f for f in self.P.fnrefs.values() if f['id'] in self.P.functions and f['short'] == 'lookup' and
                               '/lager/debug/tree_debugger' in self.P.loc(f.get('loc'))), None)
            ctx.note('the lookup of a position is not analysed: it does not call itself for the next level')
        if self.app is None:
            ctx.note('the recording of an entry in a branch is not analysed: it does not call itself for the next level')
        self.it.hook = self.hook

    # ------------------------------------------------------------ walks
    def discover(self, it, f, this, args, st, fr, where):
        r = then_later(it, f, this, args, st, fr, where)
        if r is not None:
            return r
        x = fr
        while x is not None:
            if x.fn is not None and x.fn['id'] == f['id'] and '/lager/debug/' in self.P.loc(f.get('loc')):
                self.walks[f['id']] = f
                return [(st, A('deeper'))]
            x = x.parent
        return None

    def roles(self, f):
        """which parameter of a walk is what"""
        out = {}
        for i, p in enumerate(f['params']):
            n = self.P.decay(p['t'])
            n = n.replace('const ', '')
            r = 'index' if n in ('unsigned long', 'std::size_t', 'size_t', 'unsigned int', 'int', 'long') else \
                'action' if n.startswith('W::Val<1>') else 'model' if n.startswith('W::Val<0>') else \
                'cursor' if 'pos_t' in n and n.startswith('immer::vector<') and 'step' not in n.split('pos_t')[-1] else \
                'past' if n.startswith('immer::vector<immer::vector<immer::box<') else None
            if r is None or r in out:
                return None
            out[r] = i
        if set(out) not in ({'past', 'cursor', 'index'}, {'past', 'cursor', 'index', 'action', 'model'}):
            return None
        return out

    def hook(self, it, f, this, args, st, fr, where):
        r = then_later(it, f, this, args, st, fr, where)
        if r is not None:
            return r
        if self.whole is not None and f['id'] == self.whole['id']:
            m = it.load(st, this)
            c = it.load(st, args[0]) if it.P.isref(f['params'][0]['t']) else args[0]
            out = []
            for s, none in it.truth(st, it.mkeq(it.size(c), C(0)), where, fr):
                if none:
                    b, path = it.addr(this)
                    out.append((s, REC(None, None, {'e0': C(None), 'e1': P(b, path + (self.f['init'],))})))
                else:
                    out += self.looked(it, [self.get(m, 'branches'), c, C(0)], this, s, fr, where)
            return out
        if f['id'] not in self.walks:
            return None
        if self.open == f['id']:
            self.open = None
            return None
        _, k = self.walks[f['id']]
        vs = [it.load(st, a) if it.P.isref(p['t']) else a for a, p in zip(args, f['params'])]
        st = st.copy()
        if k is None:
            return [(st, A('unknown walk', *vs))]
        q = [vs[k[n]] for n in ('past', 'cursor', 'index')]
        if 'model' in k:
            q += [vs[k['action']], vs[k['model']]]
            it.event(st, 'walk', 'append', this, tuple(q), where, None, fr, vals=tuple(q))
            return [(st, self.added(*q))]
        return self.looked(it, q, this, st, fr, where)

    def looked(self, it, q, this, st, fr, where):
        st = st.copy()
        it.event(st, 'walk', 'lookup', this, tuple(q), where, None, fr, vals=tuple(q))
        bad = st.copy()
        it.event(bad, 'walkfail', 'lookup', this, tuple(q), where, None, fr, vals=tuple(q))
        bad.exc = A('exc', S(RUNTIME))
        a, m = self.found(*q)
        key = ('recorded',) + tuple(q)
        st.mem[key] = m
        return [(st, REC(None, None, {'e0': a, 'e1': P(key)})), (bad, VOID)]

    def found(self, b, c, i):
        """the action and model recorded at the end of the cursor from the i-th position on"""
        return A('some', A('found action', b, c, i)), A('found model', b, c, i)

    def added(self, b, c, i, a, m):
        return REC(None, None, {'e0': A('with entry', b, c, i, a, m), 'e1': A('entry at', b, c, i, a, m)})

    # ------------------------------------------------------------ paths of steps
    def path(self, st, v):
        return TPath(self, st, v)

    def excluded(self, p):
        """the position of a debugger model designates an entry to begin with, and the one of a new entry does"""
        for e in p.st.events():
            if e.kind == 'walkfail':
                b, c, i = e.vals
                if i is not C(0):
                    continue
                if b is self.get(p.m, 'branches') and c is self.get(p.m, 'cursor') or \
                        b.k == 'a' and c.k == 'a' and b.a[0] == 'with entry' and c.a[0] == 'entry at' and b.a[1] == c.a[1] or \
                        b.k == 'lv' and c.k == 'lv':
                    return True
        return False

    def nothing(self, p, c):
        """is the cursor at the beginning?"""
        n = self.it.size(c)
        return p.z.proves(n, C(0))

    def something(self, p, c):
        return p.z.proves(C(1), self.it.size(c))

    def at_position(self, p, m, c, h):
        if self.nothing(p, c):
            return self.get(m, 'init') if m is not None else self.get(p.m, 'init')
        if self.something(p, c):
            return self.found(h, c, C(0))[1]
        return None

    def appended(self, p, h, h0, c0, act, model):
        if self.nothing(p, c0):
            if not (h.k == 'a' and h.a[0] == 'push' and p.same(h.a[1][0], h0)):
                return 'does not start another branch: %s' % show(h, 5)
            return self.only(p, h.a[1][1], act, model)
        if not self.something(p, c0):
            return 'does not look whether the position is the initial one'
        if self.app is None:
            return None
        want = self.it.field(self.added(h0, c0, C(0), act, model), 'e0')
        return None if p.same(h, want) else 'the branches become %s instead of %s' % (show(h, 6), show(want, 6))

    def only(self, p, v, act, model):
        """is v a branch with that one entry?"""
        f = self.it.field
        xs = items(self.it, v)
        if xs is None or len(xs) != 1:
            return 'the new branch is %s' % show(v, 5)
        return self.entry(p, xs[0], act, model)

    def entry(self, p, entry, act, model):
        f = self.it.field
        if not (entry.k == 'a' and entry.a[0] == 'box' or entry.k == 'r'):
            return 'records %s' % show(entry, 5)
        e = f(entry, 'box') if entry.k == 'a' else entry
        why = super().entry(p, e, act, model)
        if why is None and items(self.it, f(e, self.sf['branches'])) != []:
            return 'the new entry starts with the branches %s' % show(f(e, self.sf['branches']), 5)
        return why

    def newest(self, p, c, h, h0, c0, act, model):
        if self.nothing(p, c0):
            xs = items(self.it, c)
            return xs is not None and len(xs) == 1 and self.at(p, xs[0], self.it.size(h0), C(0))
        if self.app is None:
            return True
        return p.same(c, self.it.field(self.added(h0, c0, C(0), act, model), 'e1'))

    def at(self, p, pos, branch, step):
        f = self.it.field
        return p.z.equal(f(pos, self.pf['branch']), branch) and p.z.equal(f(pos, self.pf['step']), step)

    def recording(self, b):
        return b.k == 'a' and b.a[0] in ('push', 'with entry')


class TPath(Path):
    def __init__(self, d, st, v, args=(S('arg1'),)):
        self.d, self.st, self.v = d, st, v
        self.z = Zone(d.it, st.facts)
        self.m = S('arg1')
        self.meta, self.loops = {}, []
        self.site = next((e.where for e in reversed(st.events()) if e.where.startswith(kit.REPO)), P_loc(d, st))
        for k in list(st.facts):
            for v in sizes(k):
                self.z.le(C(0), v)


def sizes(k):
    if k.k == 'a':
        if k.a[0] == 'size':
            yield k
        for x in k.a[1]:
            yield from sizes(x)


def items(it, v):
    """the elements of a sequence written out, or None"""
    v = unB(v)
    if v.k == 'il':
        return list(v.a[0])
    if v.k == 'a' and v.a[0] == 'vec':
        return list(v.a[1]) if len(v.a[1]) != 1 or v.a[1][0].k != 'il' else items(it, v.a[1][0])
    if v.k == 'a' and v.a[0] == 'push':
        xs = items(it, v.a[1][0])
        return None if xs is None else xs + [v.a[1][1]]
    return None


def prefix(d, z, v):
    """a sequence as (base, how many of its first elements, elements after those)"""
    it = d.it
    if v.k == 'a' and v.a[0] == 'push':
        b, n, xs = prefix(d, z, v.a[1][0])
        return b, n, xs + [v.a[1][1]]
    if v.k == 'a' and v.a[0] == 'take':
        b, n, xs = prefix(d, z, v.a[1][0])
        k = v.a[1][1]
        if xs and z.equal(k, it.add(n, len(xs) - 1)):
            return b, n, xs[:-1]
        if z.proves(k, n):
            return b, k, []
        return v, it.size(v), []
    if v.k == 'r' and v.a[0] is None and v.a[1] is not None and len(v.a[2]) == 1:
        (k, x), = v.a[2]
        b, n, xs = prefix(d, z, v.a[1])
        if not xs and isinstance(k, tuple) and k[0] == 'i' and z.equal(it.add(k[1], 1), n):
            return b, k[1], [x]
    return v, it.size(v), []


# ---------------------------------------------------------------- C27
def in_range(ctx, d, p, what, valid=()):
    """every look at an entry is of one that exists, given positions that do"""
    it = d.it
    for e in p.st.events():
        if e.kind == 'index':
            v, i = e.args
            ok = p.z.proves(i, it.size(v), -1) and p.z.proves(C(0), i)
            ctx.ob('lookup-in-range', what, ok, 'looks up position %s of %s, which may be out of range' % (show(i, 4), show(v, 4)),
                   e.where, trace(d, p))


def level(d, f, k):
    """one level of a walk from any position -> (arguments by role, paths)"""
    it = d.it
    names = {'past': 'branches', 'cursor': 'cursor', 'index': 'index', 'action': 'act', 'model': 'mod'}
    vals = {r: S(n) for r, n in names.items()}
    args = [None] * len(f['params'])
    st = St()
    for r, i in k.items():
        if it.P.isref(f['params'][i]['t']):
            args[i] = P(('o', names[r]))
            st.mem[('o', names[r])] = vals[r]
        else:
            args[i] = vals[r]
    d.open = f['id']
    fr = Frame(it.fid(0, ('top', f['id'])), None, None, None, 0, None)
    out = []
    for s, v in it.call(f, P(('o', 'model')), args, st, fr, ('sid', 1), '?'):
        p = TPath(d, s, v)
        i, n = vals['index'], it.size(vals['cursor'])
        p.z.le(C(0), i)
        p.z.le(i, n, -1)        # the position is within the cursor
        p.z.le(C(0), n)
        pos = it.field(vals['cursor'], ('i', i))
        p.branch, p.stp = it.field(pos, d.pf['branch']), it.field(pos, d.pf['step'])
        p.z.le(C(0), p.branch)
        p.z.le(C(0), p.stp)
        p.hist = it.field(vals['past'], ('i', p.branch))
        p.node = it.field(it.field(p.hist, ('i', p.stp)), 'box')
        p.z.le(C(0), it.size(vals['past']))
        p.z.le(C(0), it.size(p.hist))
        if 'model' in k:        # it designates an entry
            p.z.le(p.branch, it.size(vals['past']), -1)
            p.z.le(p.stp, it.size(p.hist), -1)
        if not p.z.impossible():
            out.append(p)
    d.ctx.paths += len(out)
    if not out:
        raise kit.Broken('no path through ' + f['short'])
    return vals, out


def deeper(ctx, d, p, vals, rule, what, e):
    """the walk goes on with the branches of the entry, one position further"""
    it = d.it
    q = e.vals
    want = it.field(p.node, d.sf['branches'])
    ctx.ob(rule, what, p.same(q[0], want), 'goes on with %s instead of the branches of the entry' % show(q[0], 5), e.where, trace(d, p))
    ctx.ob(rule, what, p.same(q[1], vals['cursor']), 'goes on along %s' % show(q[1], 5), e.where, trace(d, p))
    ctx.ob(rule, what, p.z.equal(q[2], it.add(vals['index'], 1)), 'goes on at %s of the cursor' % show(q[2], 5), e.where, trace(d, p))
    ctx.ob(rule, what, p.z.proves(it.add(vals['index'], 2), it.size(vals['cursor'])), 'goes on although the cursor may end here', e.where, trace(d, p))
    for n, x in (('act', q[3:4]), ('mod', q[4:5])):
        if x:
            ctx.ob(rule, what, p.same(x[0], S(n)), 'passes on %s' % show(x[0], 5), e.where, trace(d, p))


def rule_walks(ctx, d, positions, contents):
    it = d.it
    if d.look is not None:
        f, k = d.walks[d.look['id']]
        vals, ps = level(d, f, k)
        what = 'lookup, at any depth'
        for p in ps:
            tr = trace(d, p)
            if positions:
                in_range(ctx, d, p, what)
            ws = [e for e in p.st.events() if e.kind == 'walk']
            for e in ws:
                if e.name == 'lookup' and contents:
                    deeper(ctx, d, p, vals, 'finds-the-recorded-action', what, e)
            if p.st.exc is not None:
                if any(e.kind == 'walkfail' for e in p.st.events()):
                    continue
                ok = p.z.proves(it.size(vals['past']), p.branch) or p.z.proves(it.size(p.hist), p.stp)
                if positions:
                    ctx.ob('no-valid-position-refused', what, ok, 'throws although the position may be valid', p.site, tr)
                continue
            if not contents:
                continue
            if ws:
                ok = len(ws) == 1 and p.same(it.field(p.v, 'e0'), d.found(*ws[0].vals)[0]) and \
                    p.same(it.load(p.st, it.field(p.v, 'e1')), d.found(*ws[0].vals)[1])
                ctx.ob('finds-the-recorded-action', what, ok, 'does not return what it finds further on', p.site, tr)
                continue
            ok = p.z.equal(it.add(vals['index'], 1), it.size(vals['cursor']))
            ctx.ob('finds-the-recorded-action', what, ok, 'stops before the end of the cursor', p.site, tr)
            act = it.field(p.v, 'e0')
            want = it.field(p.node, d.sf['action'])
            ok = act.k == 'a' and act.a[0] == 'some' and p.same(act.a[1][0], want)
            ctx.ob('finds-the-recorded-action', what, ok, 'finds the action %s' % show(act, 6), p.site, tr)
            got = it.load(p.st, it.field(p.v, 'e1'))
            want = it.field(p.node, d.sf['model'])
            ctx.ob('shows-the-recorded-model', what, p.same(got, want), 'finds %s instead of %s' % (show(got, 6), show(want, 6)), p.site, tr)
    if d.app is not None:
        f, k = d.walks[d.app['id']]
        vals, ps = level(d, f, k)
        what = 'recording, at any depth'
        for p in ps:
            tr = trace(d, p)
            if positions:
                in_range(ctx, d, p, what)
                ctx.ob('no-valid-position-refused', what, p.st.exc is None, 'throws although the position is valid', p.site, tr)
            if p.st.exc is not None:
                continue
            record(ctx, d, p, vals, what, tr, positions, contents)


def record(ctx, d, p, vals, what, tr, positions, contents):
    it = d.it
    F = it.field
    b, c, i = vals['past'], vals['cursor'], vals['index']
    nb, nc = F(p.v, 'e0'), F(p.v, 'e1')
    ws = [e for e in p.st.events() if e.kind == 'walk']
    path = (('i', p.branch), ('i', p.stp), 'box', d.sf['branches'])
    here = F(p.node, d.sf['branches'])
    if ws:
        if contents:
            ok = len(ws) == 1 and ws[0].name == 'append'
            ctx.ob('records-the-step', what, ok, 'goes on more than once', ws[-1].where, tr)
            deeper(ctx, d, p, vals, 'records-the-step', what, ws[0])
            r = d.added(*ws[0].vals) if ws[0].name == 'append' else VOID
            got = lookat(d, nb, path)
            ctx.ob('records-the-step', what, p.same(got, F(r, 'e0')), 'the branches of the entry become %s' % show(got, 6), p.site, tr)
            others(ctx, d, p, b, nb, path, what, tr)
            ctx.ob('moves-to-the-newest-entry', what, p.same(nc, F(r, 'e1')), 'ends at %s' % show(nc, 6), p.site, tr)
        return
    if contents:
        ctx.ob('records-the-step', what, p.z.equal(it.add(i, 1), it.size(c)), 'records before the end of the cursor', p.site, tr)
    z = p.z.given(it.size(c), it.add(i, 1))
    last = z.equal(it.add(p.stp, 1), it.size(p.hist))
    inner = z.proves(it.add(p.stp, 2), it.size(p.hist))
    base, n, xs = prefix(d, z, nc)
    nh = lookat(d, nb, path[:1])
    if last and nh.k == 'a' and nh.a[0] == 'push':
        # the newest of its branch: goes on in that branch
        if contents:
            why = None if p.same(nh.a[1][0], p.hist) else 'drops what was recorded: %s' % show(nh, 5)
            why = why or d.entry(p, nh.a[1][1], S('act'), S('mod'))
            ctx.ob('records-the-step', what, why is None, why, p.site, tr)
            others(ctx, d, p, b, nb, path[:1], what, tr)
        ok = p.same(base, c) and len(xs) == 1 and z.equal(n, i) and d.at(at_z(p, z), xs[0], p.branch, it.size(p.hist))
        for rule, on in (('moves-to-the-newest-entry', contents), ('position-in-history', positions)):
            if on:
                ctx.ob(rule, what, ok, 'ends at %s' % show(nc, 7), p.site, tr)
        return
    # not the newest: another branch starts at the entry
    if contents:
        ctx.ob('records-the-step', what, inner, 'starts another branch although the entry may be the newest of its branch', p.site, tr)
        got = lookat(d, nb, path)
        ok = got.k == 'a' and got.a[0] == 'push' and p.same(got.a[1][0], here)
        why = d.only(p, got.a[1][1], S('act'), S('mod')) if ok else 'the branches of the entry become %s' % show(got, 6)
        ctx.ob('records-the-step', what, why is None, why, p.site, tr)
        others(ctx, d, p, b, nb, path, what, tr)
    ok = p.same(base, c) and len(xs) == 1 and z.equal(n, it.size(c)) and d.at(at_z(p, z), xs[0], it.size(here), C(0))
    for rule, on in (('moves-to-the-newest-entry', contents), ('position-in-history', positions)):
        if on:
            ctx.ob(rule, what, ok, 'ends at %s' % show(nc, 7), p.site, tr)


class at_z:
    def __init__(self, p, z):
        self.z = z


def lookat(d, v, path):
    for k in path:
        v = d.it.field(v, k)
    return v


def others(ctx, d, p, b, nb, path, what, tr):
    """everything that was recorded is still there"""
    upto = path[:2]
    want = d.it.setpath(b, upto, lookat(d, nb, upto))
    ctx.ob('keeps-what-was-recorded', what, p.same(nb, want), 'the branches become %s' % show(nb, 8), p.site, tr)
    if len(path) > 2:
        e = lookat(d, nb, path[:3])
        for n in ('action', 'model'):
            ctx.ob('keeps-what-was-recorded', '%s of the entry, %s' % (n, what), p.same(d.it.field(e, d.sf[n]), d.it.field(p.node, d.sf[n])),
                   'the %s of the entry becomes %s' % (n, show(d.it.field(e, d.sf[n]), 5)), p.site, tr)


# ---------------------------------------------------------------- tops
def lookups(ctx, d, positions, contents):
    """the model and action at a position, from the top"""
    it = d.it
    for name, m, c in (('lookup_tree', S('arg0'), S('arg1')), ('current_tree', S('arg0'), d.get(S('arg0'), 'cursor'))):
        what = 'lookup' if name == 'lookup_tree' else 'current model'
        for st, v in run_fn(it, d.fns[name]):
            p = TPath(d, st, v)
            p.m = m
            p.z.le(C(0), it.size(c))
            if p.z.impossible() or name == 'current_tree' and d.excluded(p):
                continue
            tr = kit.trace_lines(it, st)
            if positions:
                in_range(ctx, d, p, what)
            h = d.get(m, 'branches')
            if st.exc is not None:
                ok = d.something(p, c) and any(e.kind == 'walkfail' and e.vals == (h, c, C(0)) for e in st.events())
                if positions:
                    ctx.ob('no-valid-position-refused', what, ok or d.look is None, 'throws although the position may be valid', p.site, tr)
                continue
            if not contents or d.look is None and d.whole is None:
                continue
            want = d.at_position(p, m, c, h)
            got = it.load(st, v if name == 'current_tree' else it.field(v, 'e1'))
            ctx.ob('shows-the-recorded-model', what, want is not None and p.same(got, want), 'shows %s instead of %s' % (
                show(got, 6), show(want, 6) if want is not None else '?'), p.site, tr)
            if name == 'lookup_tree':
                act = it.field(v, 'e0')
                ok = isc(act) and act.a[0] is None if d.nothing(p, c) else p.same(act, d.found(h, c, C(0))[0])
                ctx.ob('finds-the-recorded-action', what, ok, 'finds the action %s' % show(act, 6), p.site, tr)
    for st, v in run_fn(it, d.fns['initial_tree']):
        tr = kit.trace_lines(it, st)
        if positions:
            ok = st.exc is None and items(it, d.get(v, 'cursor')) == []
            ctx.ob('initial-position', 'a new debugger', ok, 'starts at position %s' % show(d.get(v, 'cursor')), P_loc(d, st), tr)
        if contents:
            ctx.ob('starts-from-the-initial-model', 'a new debugger', same(it, st, d.get(v, 'init'), S('arg0')), 'starts from %s' % show(d.get(v, 'init')),
                   P_loc(d, st), tr)
            ctx.ob('starts-from-the-initial-model', 'a new debugger', items(it, d.get(v, 'branches')) == [] and items(it, d.get(v, 'pending')) == [],
                   'starts with something recorded', P_loc(d, st), tr)


def rule_positions(ctx, d):
    it = d.it
    rule_walks(ctx, d, True, False)
    lookups(ctx, d, True, False)
    for kind in STEPS:
        if kind == 'redo':
            continue            # always throws: there is no redo in the tree
        for r, f, ps in d.steps(kind):
            what = '%s (%s reducer)' % (kind, r)
            for p in ps:
                tr = trace(d, p)
                in_range(ctx, d, p, what)
                ctx.ob('no-valid-position-refused', what, p.st.exc is None, 'throws although the position is valid', p.site, tr)
                if p.st.exc is not None:
                    continue
                c, c0 = p.res('cursor'), d.get(p.m, 'cursor')
                if kind == 'goto':
                    gone(ctx, d, p, what, tr)
                elif kind == 'undo':
                    undone(ctx, d, p, what, tr, c0, c)
                elif kind == 'pause':
                    ctx.ob('position-in-history', what, p.same(c, c0), 'moves to %s' % show(c, 5), p.site, tr)
    ctx.absorb(it)


def gone(ctx, d, p, what, tr):
    it = d.it
    if d.look is None and d.whole is None:
        return
    h, c0 = d.get(p.m, 'branches'), d.get(p.m, 'cursor')
    t = it.field(S('arg2'), d.gof['cursor'])
    c = p.res('cursor')
    looked = [e for e in p.st.events() if e.kind == 'walk' and e.name == 'lookup' and e.vals == (h, t, C(0))]
    failed = [e for e in p.st.events() if e.kind == 'walkfail' and e.vals == (h, t, C(0))]
    if failed:
        ctx.ob('moves-to-the-right-position', what, p.same(c, c0), 'goes to %s, where nothing is recorded' % show(c, 5), p.site, tr)
    elif looked or d.nothing(p, t):
        ctx.ob('moves-to-the-right-position', what, p.same(c, t), 'goes to %s' % show(c, 5), p.site, tr)
    else:
        ctx.ob('moves-to-the-right-position', what, p.same(c, c0), 'goes to %s without looking whether it exists' % show(c, 5), p.site, tr)
        ctx.ob('moves-to-the-right-position', what, False, 'does not look whether the position exists', p.site, tr)


def undone(ctx, d, p, what, tr, c0, c):
    it = d.it
    n = it.size(c0)
    if d.nothing(p, c0):
        ctx.ob('moves-to-the-right-position', what, p.same(c, c0), 'goes to %s' % show(c, 5), p.site, tr)
        return
    if not d.something(p, c0):
        ctx.ob('moves-to-the-right-position', what, False, 'does not look whether it is at the beginning', p.site, tr)
        return
    pos = it.field(c0, ('i', it.add(n, -1)))
    br, stp = it.field(pos, d.pf['branch']), it.field(pos, d.pf['step'])
    p.z.le(C(0), stp)
    for z, first in ((p.z.given(stp, C(0)), True), (p.z.given(C(1), stp), False)):
        if z.impossible():
            continue
        base, k, xs = prefix(d, z, c)
        if first:
            ok = p.same(base, c0) and not xs and z.equal(k, it.add(n, -1))
        else:
            ok = p.same(base, c0) and len(xs) == 1 and z.equal(k, it.add(n, -1)) and d.at(at_z(p, z), xs[0], br, it.add(stp, -1))
        ctx.ob('moves-to-the-right-position', what, ok, 'from the %s entry of a branch goes to %s' % ('first' if first else 'next', show(c, 6)), p.site, tr)

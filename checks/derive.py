"""API-level expressions: derived values, links, and writes against their oracles."""
from engine import kit
from engine.interp import *
from engine.pairs import *


class Derive:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = kit.export('derive.cpp')
        self.it = Interp(self.P)
        self.it.opaque = lambda f: f['short'] == 'operator()' and f.get('rname', '').endswith('detail::signal')
        self.it.keeps_args = self.it.opaque

    def pairs(self, a, b):
        A_, B_ = witness_fns(self.P, a), witness_fns(self.P, b)
        for k in A_:
            yield k, A_[k], B_[k]

    def where(self, f):
        return self.P.loc(f.get('loc'))


def rule_links(ctx, d):
    """every node made by an expression is registered exactly once with each of its sources"""
    rule_values(ctx, d, ('linked-to-source',))


class _Only:
    def __init__(self, ctx, rules):
        self.ctx, self.rules = ctx, rules

    def ob(self, rule, *a, **k):
        return self.ctx.ob(rule, *a, **k) if rule in self.rules else a[1]

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def __setattr__(self, n, v):
        if n in ('ctx', 'rules'):
            object.__setattr__(self, n, v)
        else:
            setattr(self.ctx, n, v)


def rule_values(ctx, d, only=None):
    """value at creation and after a propagation, links to every source, exactly one new path"""
    it = d.it
    if only:
        ctx = _Only(ctx, only)
    for name, x, v in d.pairs('x_', 'v_'):
        vs = run_fn(it, v)
        assert len(vs) == 1, name
        want = it.load(vs[0][0], vs[0][1]) if it.P.isref(v['ret']) else vs[0][1]
        rs = run_fn(it, x)
        ctx.paths += len(rs)
        for st, h in rs:
            what = 'expression ' + name
            if st.exc is not None:
                ctx.ob('expression-value', what, False, 'an exception escapes', '', kit.trace_lines(it, st))
                continue
            if it.P.isref(x['ret']):
                h = it.load(st, h)
            ptr, rec = node_of(it, st, h)
            if ptr is None:
                ctx.ob('expression-value', what, False, 'the handle refers to no node made from the sources', '', kit.trace_lines(it, st))
                continue
            new = first_loc(st)
            for acc in ('current', 'last'):
                got = accessor(it, st, ptr, rec, acc)
                ctx.ob('expression-value', what, got is want, 'the %s value is %s, expected %s' % (
                    'pending' if acc == 'current' else 'visible', show(got, 7), show(want, 7)), new, kit.trace_lines(it, st))
            # --- links
            for p, r in heap_nodes(it, st):
                for q in node_parents(it, st, p, r):
                    n = links(it, st, q, p)
                    ctx.ob('linked-to-source', what + ' ' + it.P.records[r]['bname'].rsplit('::', 1)[-1], n == 1,
                           'the node is linked %s times to a source' % n, new, kit.trace_lines(it, st))
            # --- after the sources changed
            st2 = st.copy()
            srcs = []
            for p, r in heap_nodes(it, st):
                for q in node_parents(it, st, p, r):
                    if q.k != 'p' and q not in srcs:
                        srcs.append(q)
            changed = {}
            for i, q in enumerate(srcs):
                b = it.addr(q)[0]
                changed[b] = S('changed%d' % i)
                st2.mem[b] = changed[b]
            st3 = St()
            st3.mem.update(changed)
            w2 = run_fn(it, v, st3)
            want2 = it.load(w2[0][0], w2[0][1]) if it.P.isref(v['ret']) else w2[0][1]
            for p, r in heap_nodes(it, st):
                st2.facts[A('alive', p)] = True
            sts = [st2]
            for p, r in heap_nodes(it, st):
                if any(q in srcs for q in node_parents(it, st, p, r)):
                    nxt = []
                    for s in sts:
                        nxt += [s2 for s2, _ in call(it, s, p, r, 'send_down')]
                    sts = nxt
            for s in sts:
                if s.exc is not None:
                    continue
                got = accessor(it, s, ptr, rec, 'last')
                ok = got is want2 or agree(s, got, want2)
                if not ok and contains(got, lambda x: x.k == 'lv'):
                    ctx.note('%s: a value is lost to widening; not compared' % name)
                    continue
                ctx.ob('expression-follows', what, ok, 'after its sources changed the value is %s, expected %s' % (
                    show(got, 7), show(want2, 7)), new, kit.trace_lines(it, s))
    ctx.absorb(it)


def eqfact(s, a, b):
    """known equal on this path, transitively"""
    seen = {a}
    work = [a]
    eqs = [f.a[1] for f, v in s.facts.items() if v and f.k == 'a' and f.a[0] == '==']
    for l, r in list(eqs):
        if l.k == 'r' and r.k == 'r':
            dl, dr = dict(l.a[2]), dict(r.a[2])
            eqs += [(dl[k], dr[k]) for k in dl if k in dr]
    while work:
        x = work.pop()
        if x is b:
            return True
        for l, r in eqs:
            for p, q in ((l, r), (r, l)):
                if p is x and q not in seen:
                    seen.add(q)
                    work.append(q)
    return b in seen


def agree(s, a, b):
    if eqfact(s, a, b):
        return True
    if a.k == 'r' and b.k == 'r':
        da, db = dict(a.a[2]), dict(b.a[2])
        if da and da.keys() == db.keys():
            return all(agree(s, da[k], db[k]) for k in da)
    if a.k == b.k == 'a' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and a.a[1]:
        # the same function of values known to be equal
        return all(x is y or isinstance(x, V) and isinstance(y, V) and agree(s, x, y) for x, y in zip(a.a[1], b.a[1]))
    return False


def rewrite(v, fn, memo=None):
    """bottom-up rewriting of a term"""
    memo = {} if memo is None else memo
    if not isinstance(v, V):
        return v
    r = memo.get(v)
    if r is not None:
        return r
    k = v.k
    if k == 'a':
        r = mk('a', v.a[0], tuple(rewrite(x, fn, memo) for x in v.a[1]))
    elif k == 'r':
        d = {f: rewrite(x, fn, memo) for f, x in v.a[2]}
        r = REC(v.a[0], rewrite(v.a[1], fn, memo) if v.a[1] is not None else None, d)
    elif k == 'f':
        key = v.a[1]
        r = mk('f', rewrite(v.a[0], fn, memo), key)
    elif k in ('mv', 'd'):
        r = mk(k, rewrite(v.a[0], fn, memo))
    elif k == 'il':
        r = mk('il', tuple(rewrite(x, fn, memo) for x in v.a[0]))
    elif k == 'p' and v.a[0][0] == 'x':
        r = P(('x', rewrite(v.a[0][1], fn, memo)), v.a[1])
    else:
        r = v
    r = fn(r)
    memo[v] = r
    return r


def untouched(v):
    """forget that derived nodes were registered with a source"""
    if v.k == 'r' and v.a[1] is not None :
        d = {}
        for f, x in v.a[2]:
            y = x
            while y.k == 'a' and y.a[0] == 'push' and y.a[1][1].k == 'a' and y.a[1][1].a[0] == 'weak':
                y = y.a[1][0]
            if y is not x and y.k == 'f' and y.a[1] == f and y.a[0] is v.a[1]:
                continue
            d[f] = x
        return REC(v.a[0], v.a[1], d) if d else v.a[1]
    return v


def first_loc(st):
    for e in st.events():
        if e.kind == 'new':
            return e.where
    return ''


def links(it, st, q, child):
    """how often child is registered in q's dependents"""
    v = it.load(st, q)
    n = 0
    fields = ()
    t = v
    # the registration is the only place a weak reference to the child is kept
    def count(x):
        c = 0
        if x.k == 'a':
            if x.a[0] == 'weak' and x.a[1][0] is child:
                return 1
            if x.a[0] in ('push', 'insert', 'after'):
                return sum(count(y) for y in x.a[1] if isinstance(y, V))
        if x.k == 'r':
            c += sum(count(y) for f, y in x.a[2])
            if x.a[1] is not None:
                c += count(x.a[1])
        return c
    return count(v)


def rule_writes(ctx, d):
    it = d.it
    for name, w, s in d.pairs('w_', 's_'):
        ss = run_fn(it, s)
        want = it.load(ss[0][0], ss[0][1]) if it.P.isref(s['ret']) else ss[0][1]
        want = parts(it, want, sum(1 for p in s['params'] if 'cursor<' in it.P.tname(p['t'])))
        rs = run_fn(it, w)
        ctx.paths += len(rs)
        for st, _ in rs:
            what = 'write ' + name
            if st.exc is not None and any(not v and source_index(k) is not None and k.k in 'fs' for k, v in st.facts.items()):
                continue        # a handle that refers to nothing
            if st.exc is not None:
                ctx.ob('write-reaches-sources', what, False, 'an exception escapes', '', kit.trace_lines(it, st))
                continue
            ups = [e for e in st.events() if e.kind == 'vcall' and e.name.endswith('::send_up')]
            got = {}
            for e in ups:
                got.setdefault(e.this, []).append(e.vals[1])
            ptrs = []
            for i, p in enumerate(w['params']):
                if 'cursor<' in it.P.tname(p['t']):
                    ptrs.append(i)
            ok = len(ups) == len(want)
            if not ctx.ob('write-reaches-sources', what, ok, '%d writes reach %d sources' % (len(ups), len(want)),
                          ups[0].where if ups else '', kit.trace_lines(it, st)):
                continue
            seen = st.copy()
            seen.facts = {rewrite(k, untouched): v for k, v in st.facts.items()}
            for e in ups:
                src = source_index(e.this)
                exp = want[src] if src is not None and src < len(want) else None
                val = rewrite(e.vals[1], untouched)
                ctx.ob('write-reaches-sources', what, val is exp or exp is not None and agree(seen, val, exp), 'source %s receives %s, expected %s' % (
                    src, show(val, 7), show(exp, 7) if exp is not None else 'nothing'), e.where, kit.trace_lines(it, st))
            um = [e for e in st.events() if e.kind == 'usemoved' and e.where.startswith(kit.REPO)]
            ctx.ob('no-moved-values', what, not um, 'a value is used after being moved away', um[0].where if um else '',
                   um and kit.trace_lines(it, st))


def source_index(t):
    """which argument's node is this"""
    r = []
    contains(t, lambda x: x.k == 's' and isinstance(x.a[0], str) and x.a[0].startswith('arg') and not r.append(x.a[0]))
    return int(r[0][3:]) if len(r) == 1 else None


def parts(it, v, n):
    if v.k == 'r' and v.a[1] is None and len(v.a[2]) == n and dict(v.a[2]).keys() == {'e%d' % i for i in range(n)}:
        return [dict(v.a[2])['e%d' % i] for i in range(n)]
    return [it.field(v, 'e%d' % i) for i in range(n)]

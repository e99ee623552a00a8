"""Saving and loading of immutable containers, as traces of what is handed to an opaque archive."""
from engine import kit
from engine.interp import *
from engine.models import unB
from engine.pairs import run_fn
from engine.zone import Zone
from checks.lenses import same

TAPE = (('o', 'archive'), ())


class Archives:
    def __init__(self, ctx, witness='cereal.cpp', follow=(), **kw):
        self.ctx = ctx
        self.P = kit.export(witness, follow=['ctor:pair'] + list(follow), **kw)
        self.it = Interp(self.P)
        self.it.hook = self.hook
        self.fns = {f['short']: f for f in self.P.fnrefs.values() if f['id'] in self.P.functions and
                    self.P.loc(f.get('loc')).startswith(kit.VERIF)}

    def hook(self, it, f, this, args, st, fr, where):
        b = f['bname']
        if b in ('cereal::make_size_tag', 'cereal::make_map_item', 'cereal::make_nvp', 'cereal::NameValuePair::NameValuePair'):
            return [(st, A(b.rsplit('::', 1)[1], *args))]
        if b not in ('W::SaveAr::operator()', 'W::LoadAr::operator()'):
            return None
        st = st.copy()
        if b.startswith('W::Save'):
            it.event(st, 'saved', '', this, tuple(args), where, None, fr, vals=tuple(self.out(st, a) for a in args))
            return [(st, this)]
        vs = []
        for a in args:
            vs.append(self.into(st, a, where, fr))
        it.event(st, 'loaded', '', this, tuple(args), where, None, fr, vals=tuple(vs))
        return [(st, this)]

    def tag(self, st, a):
        v = self.it.load(st, a) if a.k == 'p' else a
        if v.k == 'a' and v.a[0] in ('make_size_tag', 'make_map_item', 'make_nvp', 'NameValuePair'):
            return v.a[0], v.a[1]
        return None, (a,)

    def val(self, st, a):
        return self.it.load(st, a) if a.k == 'p' else a

    def out(self, st, a):
        """what an archive is given to save"""
        k, xs = self.tag(st, a)
        xs = [x if k in ('make_nvp', 'NameValuePair') and i == 0 else self.val(st, x) for i, x in enumerate(xs)]
        return A(k, *xs) if k else xs[0]

    def into(self, st, a, where, fr):
        """an archive loads into what it is given: the next thing on the tape"""
        it = self.it
        k, xs = self.tag(st, a)
        if k == 'make_size_tag':
            it.store(st, xs[0], S('saved size'), where, fr)
            return A('size?')
        pos = it.read(st, TAPE)
        r = A('saved', pos)
        it.write(st, TAPE, it.add(pos, 1), quiet=True)
        if k == 'make_map_item':
            for i, x in enumerate(xs):
                it.store(st, x, it.field(r, 'e%d' % i), where, fr)
        elif k:
            it.store(st, xs[1], r, where, fr)
            return A(k, xs[0], r)
        else:
            it.store(st, xs[0], r, where, fr)
        return r


class Pass:
    def __init__(self):
        self.done = []      # values saved or loaded in this pass
        self.after = {}
        self.nested = 0


def passes(p, kind):
    """-> what happened before the loop, the passes of the loop, after it, how it ended"""
    before, its, after, end, key, cur = [], [], [], None, None, None
    for e in p:
        if e.kind == 'loopiter' and (key is None or (e.ctx[0], e.ctx[2]) == key):
            key = (e.ctx[0], e.ctx[2])
            cur = Pass()
            its.append(cur)
        elif e.kind == 'loophead' and key == (e.ctx[0], e.ctx[2]):
            cur.after = {loc: (a, b, l) for loc, a, b, l in e.ctx[3]}
            cur = None
        elif e.kind == 'loopexit' and (key is None or key == (e.ctx[0], e.ctx[2])):
            end, key = e, (e.ctx[0], e.ctx[2])
        elif e.kind == kind:
            (cur.done if cur is not None else after if end is not None else before).append(e)
    return before, its, after, end


def saved_elem(it, kind, x):
    if kind == 'boxes':
        return it.field(x, 'box')
    if kind == 'map':
        return A('make_map_item', it.field(x, 'e0'), it.field(x, 'e1'))
    if kind == 'ids':
        return it.field(x, 'e1')
    return x


def added(d, st, kind, acc, prev, read, idf):
    """is acc the container prev with what was read added?"""
    it = d.it
    sm = lambda a, b: same(it, st, a, b)
    if acc.k != 'a':
        return False
    op, xs = acc.a
    if not sm(xs[0], prev):
        return False
    if kind in ('seq', 'boxes'):
        if op != 'push':
            return False
        return sm(xs[1], A('box', read) if kind == 'boxes' else read)
    if op != 'put':
        return False
    if kind == 'set':
        return len(xs) == 2 and sm(xs[1], read)
    if len(xs) != 3:
        return False
    if kind == 'map':
        return sm(xs[1], it.field(read, 'e0')) and sm(xs[2], it.field(read, 'e1'))
    return sm(xs[1], it.field(read, idf)) and sm(xs[2], read)


def empty(v):
    return v.k == 'a' and (v.a[0] == 'vec' and not v.a[1] or v.a[0] == 'new' and len(v.a[1]) <= 1)


KINDS = (('seq_vector', 'seq', 'immer::vector'), ('seq_boxes', 'boxes', 'immer::vector of boxes'), ('seq_array', 'seq', 'immer::array'),
         ('seq_flex', 'seq', 'immer::flex_vector'), ('set_set', 'set', 'immer::set'), ('map_map', 'map', 'immer::map'),
         ('ids_map', 'ids', 'immer::map of objects with ids'))
FOLLOW = ['immer::for_each', 'std::for_each', 'std::for_each_n', 'immer::accumulate', 'std::accumulate', 'immer::for_each_chunk',
          'immer::all_of', 'immer::for_each_chunk_p']


def walk(ctx, d, what, p, its, end, n, z, site, tr, rule):
    """the passes of a loop are exactly n, counted by a variable -> index of each pass, or None"""
    it = d.it
    if end is None and not its:
        ctx.ob(rule, what, z.proves(n, C(0)), 'handles no element although there may be some', site, tr)
        return []
    if not ctx.ob(rule, what, end is not None and end.name == 'cond', 'stops early', end.where if end is not None else site, tr):
        return None
    # a variable that goes from 0 to n, or from n to 0, one at a time
    cands = [('up', C(0))]
    if its:
        cands = []
        for loc, (a, b, l) in its[0].after.items():
            if loc == TAPE:
                continue
            if isc(a) and b is it.add(a, 1):
                cands.append((loc, 1, a, lambda v: v))
            elif b is it.add(a, -1):
                cands.append((loc, -1, a, lambda v: v))
            elif empty(a) and it.size(b) is it.add(it.size(a), 1):
                # or the container that is filled itself, with one element per pass
                cands.append((loc, 1, a, it.size))
        for loc, step, first, count in sorted(cands, key=lambda c: c[0][1][-1:] != ('i',)):
            idx, ok = [], True
            cur = first = count(first)
            for x in its:
                idx.append(cur)
                a, b, l = x.after.get(loc, (None, None, None))
                if l is None or count(b) is not it.add(cur, step):
                    ok = False
                    break
                cur = count(l)
            if not ok:
                continue
            # it goes all the way, and not further
            left, right = (C(0), n) if step == 1 else (n, C(0))
            if z.equal(first, left) and (z.proves(right, cur) if step == 1 else z.proves(cur, right)) and \
                    (z.equal(cur, right) or all(z.proves(i, n, -1) if step == 1 else z.proves(C(0), i, -1) for i in idx)):
                return idx
        ctx.ob(rule, what, False, 'does not handle exactly the elements there are', site, tr)
        return None
    ctx.ob(rule, what, z.proves(n, C(0)), 'handles no element although there may be some', site, tr)
    return []


def rule_containers(ctx):
    d = Archives(ctx, follow=FOLLOW)
    it = d.it
    names = {}
    for short, kind, title in KINDS:
        for way in ('save', 'load'):
            f = d.fns.get('%s_%s' % (way, short))
            if f is None:
                raise kit.Broken('no %s of %s' % (way, title))
            rs = run_fn(it, f)
            ctx.paths += len(rs)
            if not rs:
                raise kit.Broken('no path through %s of %s' % (way, title))
            fine = 0
            for st, v in rs:
                z = Zone(it, st.facts)
                if z.impossible():
                    continue
                site = next((e.where for e in reversed(st.events()) if e.where.startswith(kit.REPO)), kit.REPO + '/lager/extra/cereal')
                tr = kit.trace_lines(it, st)
                fine += (saving if way == 'save' else loading)(ctx, d, kind, title, st, z, site, tr)
            ctx.ob('some-way-through', '%s of %s' % (way, title), fine > 0, 'always fails', f['bname'])
    # a box is saved and loaded under one name
    for way in ('save', 'load'):
        f = d.fns['%s_box_box' % way]
        for st, v in run_fn(it, f):
            what = '%s of immer::box' % way
            es = [e for e in st.events() if e.kind == way + ('d' if way == 'save' else 'ed')]
            site = es[0].where if es else kit.REPO + '/lager/extra/cereal'
            tr = kit.trace_lines(it, st)
            if not ctx.ob('box-value', what, st.exc is None and len(es) == 1 and len(es[0].vals) == 1, 'is not archived once', site, tr):
                continue
            x = es[0].vals[0]
            if x.k == 'a' and x.a[0] in ('make_nvp', 'NameValuePair'):
                nm, x = it.load(st, x.a[1][0]) if x.a[1][0].k == 'p' else x.a[1][0], x.a[1][1]
            else:
                nm = None
            names.setdefault(nm, []).append(way)
            if way == 'save':
                ctx.ob('box-value', what, same(it, st, x, it.field(S('arg1'), 'box')), 'saves %s' % show(x, 5), site, tr)
            else:
                got = it.load(st, P(('o', 'arg1')))
                ctx.ob('box-value', what, same(it, st, got, A('box', x)), 'ends as %s' % show(got, 5), site, tr)
    ctx.ob('box-value', 'immer::box', len(names) == 1, 'is saved and loaded under different names: %s' % [show(n) if n else '-' for n in names],
           kit.REPO + '/lager/extra/cereal/immer_box.hpp')
    ctx.absorb(it)


def saving(ctx, d, kind, title, st, z, site, tr):
    it = d.it
    what = 'saving %s' % title
    if not ctx.ob('saves', what, st.exc is None, 'throws', site, tr):
        return 0
    v = S('arg1')
    n = it.size(v)
    before, its, after, end = passes(st.events(), 'saved')
    flat = [x for e in before for x in e.vals]
    ok = len(flat) == 1 and flat[0].k == 'a' and flat[0].a[0] == 'make_size_tag' and z.equal(flat[0].a[1][0], n)
    if not ctx.ob('count-saved-first', what, ok, 'saves %s before the elements' % [show(x, 4) for x in flat], site, tr):
        return 0
    idx = walk(ctx, d, what, st, its, end, n, z, site, tr, 'every-element-saved')
    if idx is None:
        return 0
    for i, x in zip(idx, its):
        vals = [y for e in x.done for y in e.vals]
        want = saved_elem(it, kind, it.field(v, ('i', i)))
        ok = len(vals) == 1 and same(it, st, vals[0], want)
        ctx.ob('every-element-saved', what, ok, 'saves %s instead of %s' % ([show(y, 5) for y in vals], show(want, 5)), site, tr)
    ctx.ob('every-element-saved', what, not after, 'saves more after the elements', site, tr)
    return 1


def loading(ctx, d, kind, title, st, z, site, tr):
    it = d.it
    what = 'loading %s' % title
    final = it.load(st, P(('o', 'arg1')))
    n = S('saved size')
    if st.exc is not None:
        # only maps and sets may find out that two elements are the same
        differs = st.facts.get(it.mkeq(n, it.size(final))) is False or st.facts.get(it.mkeq(it.size(final), n)) is False or \
            z.proves(it.size(final), n, -1) or z.proves(n, it.size(final), -1)
        ctx.ob('loads', what, kind in ('map', 'ids', 'set') and differs, 'throws', site, tr)
        return 0
    before, its, after, end = passes(st.events(), 'loaded')
    ok = len(before) == 1 and before[0].vals == (A('size?'),)
    if not ctx.ob('count-loaded-first', what, ok, 'does not load the count first', site, tr):
        return 0
    idx = walk(ctx, d, what, st, its, end, n, z, site, tr, 'every-element-loaded')
    if idx is None:
        return 0
    idf = None
    if kind == 'ids':
        r = next(r for r in d.P.records if r['full'] == 'W::Id')
        idf = next(x['id'] for x in r['fields'] if x['name'] == 'id')
    acc, cur = None, None
    for x in its:
        vals = [y for e in x.done for y in e.vals]
        if not ctx.ob('every-element-loaded', what, len(vals) == 1 and vals[0].k == 'a' and vals[0].a[0] == 'saved',
                      'loads %d elements at a time' % len(vals), site, tr):
            return 0
        hit = None
        for loc, (a, b, l) in x.after.items():
            if acc is not None and loc != acc:
                continue
            if added(d, st, kind, b, a if acc is None else cur, vals[0], idf):
                hit = loc
                if acc is None:
                    ctx.ob('old-contents-replaced', what, empty(a), 'adds to %s' % show(a, 4), site, tr)
                break
        if not ctx.ob('every-element-loaded', what, hit is not None, 'what is loaded does not become the next element', site, tr):
            return 0
        acc, cur = hit, x.after[hit][2]
    ctx.ob('every-element-loaded', what, not after, 'loads more after the elements', site, tr)
    if its:
        ctx.ob('result-is-what-was-loaded', what, same(it, st, final, cur), 'ends as %s' % show(final, 5), site, tr)
    else:
        ctx.ob('old-contents-replaced', what, empty(final), 'an empty container leaves %s' % show(final, 4), site, tr)
    return 1

"""Who keeps whom alive: ownership edges between graph nodes, handles and callbacks."""
from engine import kit
from engine.interp import *
from engine.pairs import is_node_ptr, pointers
from engine.paths import strip_after

WEAK = ('std::weak_ptr',)
OWN = ('std::shared_ptr', 'std::unique_ptr')


def node_rec(P_, r):
    return any(P_.records[x]['bname'] == 'lager::detail::reader_node_base' for x in P_.bases_of(r['i'])) or \
        any(P_.records[x]['bname'] == 'lager::detail::writer_node_base' for x in P_.bases_of(r['i']))


def target(P_, r):
    for a in r.get('targs') or ():
        if 't' in a and P_.isrec(a['t']):
            return P_.rec_of_type(a['t'])
    return None


def edges(P_, t, seen=None, path=()):
    """[(kind, target record, path)] pointers to nodes inside a value of type t: own/weak/raw"""
    seen = set() if seen is None else seen
    out = []
    k = P_.tk(t)
    if k in ('ptr', 'lref', 'rref'):
        r = P_.rec_of_type(t)
        if r is not None and node_rec(P_, r):
            out.append(('raw', r, path))
        return out
    if not P_.isrec(t):
        return out
    r = P_.rec_of_type(t)
    if r['i'] in seen:
        return out
    seen = seen | {r['i']}
    if r['bname'] in OWN + WEAK:
        q = target(P_, r)
        if q is not None and node_rec(P_, q):
            out.append(('own' if r['bname'] in OWN else 'weak', q, path))
        return out
    if r['bname'].startswith('std::'):
        for a in r.get('targs') or ():
            if 't' in a:
                out += edges(P_, a['t'], seen, path)
            for b in a.get('pack') or ():
                if 't' in b:
                    out += edges(P_, b['t'], seen, path)
        return out
    for f in P_.all_fields(r['i']):
        out += edges(P_, f['t'], seen, path + (f['name'],))
    return out


def rule_nodes(ctx, g):
    """nodes own their sources and nothing else; dependents are registered without owning them"""
    for n in g.nodes:
        P_ = n.P
        nm = n.rec['bname'].rsplit('::', 1)[-1]
        # owning fields
        own = []
        for f in P_.all_fields(n.rec['i']):
            if any(e[0] == 'own' for e in edges(P_, f['t'])):
                own.append(f['id'])
        # sources given to the constructor end up owned
        for c, sts in n.ctors:
            if c['short'] and c.get('copy'):
                continue
            srcs = []
            for i, p in enumerate(c['params']):
                for k, r, path in edges(P_, strip(P_, p['t'])):
                    srcs.append((i, k, p))
            for s in sts:
                if s.exc is not None:
                    continue
                obj = s.mem[n.base]
                for i, k, p in srcs:
                    a = S('arg%d' % i)
                    kept = [f for f in own if contains(n.it.field(obj, f), lambda x: x is a)]
                    ctx.ob('derived-owns-sources', '%s source argument %d' % (nm, i), bool(kept),
                           'the source given to the constructor is not kept alive by the node', P_.loc(c.get('loc')))
        # nothing else is ever owned, and sources are never let go
        for p in n.all_paths():
            if p.st.exc is not None:
                continue
            for f in own:
                v = n.fld(p.st, f)
                v, h = strip_after(v)
                ok = v is mk('f', S('node'), f)
                ctx.ob('sources-kept', '%s::%s' % (nm, p.m['short']), ok,
                       'the node changes what it keeps alive to ' + show(v, 5), p.last_where(), kit.trace_lines(n.it, p.st))
        # link
        for f in n.method('link'):
            arg = S('child')
            rs = n.run(f, [P(('o', 'val'))], {('o', 'val'): arg}) if P_.isref(f['params'][0]['t']) else n.run(f, [arg])
            for s, v in rs:
                if s.exc is not None:
                    continue
                into = [x for x in P_.all_fields(n.rec['i']) if n.fld(s, x['id']) is not mk('f', S('node'), x['id'])]
                kept = [x for x in into if contains(n.fld(s, x['id']), lambda y: y is arg)]
                bad = [x for x in kept if any(e[0] in ('own', 'raw') for e in edges(P_, x['t']))]
                ctx.ob('dependents-not-owned', nm + '::link', bool(kept) and not bad,
                       'a dependent is kept in %s, which %s' % (bad[0]['name'], 'owns it or dangles') if bad
                       else 'linking does not register the dependent', P_.loc(f.get('loc')), kit.trace_lines(n.it, s))


def strip(P_, t):
    while P_.isref(t):
        t = P_.types[t]['to']
    return t


def rule_signal_owns_nothing(ctx, g):
    """a node's list of callbacks does not keep handles or callbacks alive"""
    seen = set()
    for n in g.nodes:
        P_ = n.P
        for fid in n.sigf:
            r = P_.rec_of_type(P_.fieldtype[fid])
            if r['i'] in seen:
                continue
            seen.add(r['i'])
            bad = [e for x in P_.all_fields(r['i']) for e in edges(P_, x['t']) if e[0] == 'own']
            bad2 = [x for x in P_.all_fields(r['i']) if P_.isrec(x['t']) and 'std::shared_ptr' in P_.tname(x['t'])]
            ctx.ob('signal-owns-nothing', r['full'], not bad and not bad2, 'the signal keeps its callbacks alive', P_.loc(r.get('loc')))


def rule_handles(ctx, h, names=('lager::reader', 'lager::cursor', 'lager::writer', 'lager::state', 'lager::sensor')):
    """every handle owns the node it refers to"""
    P_ = h.P
    seen = 0
    for r in P_.records:
        if r['bname'] in names and r.get('def') and not r.get('dependent'):
            es = [e for f in P_.all_fields(r['i']) for e in edges(P_, f['t'])]
            if not es:
                continue
            seen += 1
            ctx.ob('handle-owns-node', r['full'], any(e[0] == 'own' for e in es),
                   'the handle only holds a %s reference to the value it refers to' % es[0][0], P_.loc(r.get('loc')))
    if not seen:
        raise kit.Broken('no handle class found')


def rule_expressions(ctx, d):
    """after building any expression, no source owns the new nodes, and the new nodes own every source"""
    from engine.pairs import witness_fns, run_fn, heap_nodes, node_parents
    it = d.it
    for name, x in witness_fns(d.P, 'x_').items():
        for st, h in run_fn(it, x):
            if st.exc is not None:
                continue
            if it.P.isref(x['ret']):
                h = it.load(st, h)
            nodes = heap_nodes(it, st)
            for p, r in nodes:
                par = node_parents(it, st, p, r)
                for q in par:
                    v = it.load(st, q)
                    owned = owners(v, p)
                    ctx.ob('sources-do-not-own-dependents', 'expression ' + name, not owned,
                           'a source keeps the value derived from it alive', first(st), kit.trace_lines(it, st))


def owners(v, p):
    """is p stored in v other than behind a weak reference"""
    if v is p:
        return True
    if v.k == 'a':
        if v.a[0] == 'weak':
            return False
        return any(owners(x, p) for x in v.a[1] if isinstance(x, V))
    if v.k == 'r':
        return any(owners(x, p) for f, x in v.a[2]) or (v.a[1] is not None and owners(v.a[1], p))
    return False


def first(st):
    for e in st.events():
        if e.kind == 'new':
            return e.where
    return ''

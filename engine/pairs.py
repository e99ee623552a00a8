"""Witness functions compared with oracle functions by their abstract results."""
from .interp import *
from . import kit


def witness_fns(P_, prefix, ns='W::'):
    out = {}
    for f in P_.fnrefs.values():
        if f['id'] in P_.functions and f['bname'].startswith(ns) and f['short'].startswith(prefix) \
                and f['bname'].count('::') == 1:
            out[f['short'][len(prefix):]] = f
    return out


def args_of(P_, f):
    args, mem = [], {}
    for i, p in enumerate(f['params']):
        if P_.isref(p['t']):
            b = ('o', 'arg%d' % i)
            mem[b] = S('arg%d' % i)
            args.append(P(b))
        else:
            args.append(S('arg%d' % i))
    return args, mem


def run_fn(it, f, st=None, args=None):
    a, mem = args_of(it.P, f)
    st = st.copy() if st is not None else St()
    for b, v in mem.items():
        st.mem.setdefault(b, v)
    fr = Frame(it.fid(0, 'top'), None, None, None, 0, None)
    return it.call(f, None, args if args is not None else a, st, fr, ('run', f['id']), '?')


def method_of(P_, rec, short, nargs=0):
    rs = P_.bases_of(rec)
    best = None
    for f in P_.fnrefs.values():
        if f['short'] == short and f.get('rec') in rs and len(f['params']) == nargs:
            if f.get('virtual'):
                o = P_.overrider(rec, f['id'])
                if o is not None and o in P_.functions:
                    return P_.fnrefs[o]
            if f['id'] in P_.functions:
                best = f
    return best


def heap_nodes(it, st):
    """[(pointer, record index)] of the graph nodes allocated on the path, in order"""
    out = []
    for b, v in st.mem.items():
        if b[0] == 'h' and v.k == 'r':
            r = it.dyn(v)
            if r is not None and any(it.P.records[x]['bname'] == 'lager::detail::reader_node_base'
                                     for x in it.P.bases_of(r)):
                out.append((P(b), r))
    return out


def pointers(v, seen=None):
    """pointers stored anywhere inside a value"""
    out = []
    if v.k == 'p':
        return [v]
    if v.k == 'r':
        for f, x in v.a[2]:
            out += pointers(x)
    if v.k == 'a' and v.a[0] in ('push', 'some', 'alt'):
        for x in v.a[1]:
            if isinstance(x, V):
                out += pointers(x)
    return out


def node_of(it, st, handle):
    """graph node a returned handle refers to"""
    hs = {p: r for p, r in heap_nodes(it, st)}
    for p in pointers(handle):
        if p in hs:
            return p, hs[p]
    return None, None


def call(it, st, ptr, rec, short, args=()):
    f = method_of(it.P, rec, short, len(args))
    if f is None:
        raise kit.Broken('no method %s in %s' % (short, it.P.records[rec]['bname']))
    fr = Frame(it.fid(0, 'top'), None, None, None, 0, None)
    return it.call(f, ptr, list(args), st.copy(), fr, ('call', f['id'], ptr), '?')


def accessor(it, st, ptr, rec, short):
    rs = call(it, st, ptr, rec, short)
    if len(rs) != 1:
        return None
    s, v = rs[0]
    f = method_of(it.P, rec, short)
    return it.load(s, v) if it.P.isref(f['ret']) else v


def node_parents(it, st, ptr, rec):
    """owning pointers to other nodes stored in a node"""
    P_ = it.P
    v = it.load(st, ptr)
    out = []
    for f in P_.all_fields(rec):
        if not P_.isrec(f['t']):
            continue
        r = P_.rec_of_type(f['t'])
        x = it.field(v, f['id'])
        if r['bname'] == 'std::shared_ptr' and is_node_ptr(P_, r):
            out.append(x)
        elif r['bname'] in ('std::tuple', 'std::pair') and r.get('targs'):
            for i, a in enumerate(r['targs']):
                if 't' in a and P_.isrec(a['t']):
                    r2 = P_.rec_of_type(a['t'])
                    if r2['bname'] == 'std::shared_ptr' and is_node_ptr(P_, r2):
                        out.append(it.field(x, 'e%d' % i))
    return out


def is_node_ptr(P_, r):
    for a in r.get('targs') or ():
        if 't' in a and P_.isrec(a['t']):
            q = P_.rec_of_type(a['t'])
            if any(P_.records[x]['bname'] == 'lager::detail::reader_node_base' for x in P_.bases_of(q['i'])):
                return True
    return False

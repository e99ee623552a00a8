"""Models of the standard library facilities lager relies on."""
from .interp import (V, mk, C, S, A, P, REC, VOID, NULL, TRUE, FALSE, isc, SMARTS, LOCKS,
                     CONTAINERS, ITERS, has_mv_shallow)


def is_container(rn):
    return rn in CONTAINERS


def ret(st, v):
    return [(st, v)]


PTRISH = SMARTS + ('std::reference_wrapper',)


def content(it, st, a):
    return it.load(st, a)


def ctor(it, f, rec, loc, args, atypes, st, fr, sid, where, base):
    b = rec['bname']
    ps = f['params']

    def put(v):
        if base:
            it.set_base(st, loc, v)
        else:
            it.write(st, loc, v, quiet=True)
        return [st]

    if b in LOCKS:
        ms = []
        rest = args
        deferred = adopted = trying = False
        for i, a in enumerate(args):
            t = ps[i]['t'] if i < len(ps) else -1
            n = it.P.decay(t) if t >= 0 else ''
            if 'defer_lock' in n:
                deferred = True
            elif 'adopt_lock' in n:
                adopted = True
            elif 'try_to_lock' in n:
                trying = True
            elif n.startswith('std::') and 'unique_lock' in n:
                # move
                v = it.load(st, a)
                it.write(st, loc, v, quiet=True)
                bb, pp = it.addr(a)
                it.write(st, (bb, pp + ('own',)), FALSE, quiet=True)
                return [st]
            else:
                ms.append(a)
        m = ms[0] if len(ms) == 1 else mk('il', tuple(ms))
        it.write(st, loc, REC(rec['i'], None, {'m': m, 'own': FALSE if deferred else TRUE}), quiet=True)
        out = [st]
        if trying:
            st = st.copy()
            out.insert(0, st.copy())
            it.write(out[0], loc, REC(rec['i'], None, {'m': m, 'own': FALSE}), quiet=True)
        if not deferred and not adopted:
            for x in ms:
                it.lock(st, P(*loc), x, fr, where)
        if trying:
            out[-1] = st
        return out
    if b in SMARTS or b == 'std::reference_wrapper':
        if not args:
            return put(NULL)
        a = args[0]
        t = ps[0]['t'] if ps else -1
        if it.P.tk(t) == 'nullptr':
            return put(NULL)
        if it.P.isref(t):
            if b == 'std::reference_wrapper':
                d = it.P.decay(t)
                if not d.startswith('std::reference_wrapper'):
                    return put(a)
            v = it.take(st, a, t)
            src = it.P.rec_of_type(t)
            if b == 'std::weak_ptr' and src and src['bname'] == 'std::shared_ptr':
                v = A('weak', v) if not (isc(v)) else v
            return put(v)
        return put(a)
    if b == 'std::function':
        if not args:
            return put(NULL)
        a = args[0]
        t = ps[0]['t'] if ps else -1
        if it.P.tk(t) == 'nullptr':
            return put(NULL)
        if it.P.isref(t):
            r = it.P.rec_of_type(t)
            v = it.take(st, a, t)
        else:
            r = it.P.rec_of_type(t)
            v = a
        if r is None and v.k == 'p':
            pass
        # a function object that is itself a std::function (of another type)
        if r is not None and r['bname'] != 'std::function' and derives_function(it, r['i']) and v.k != 'c':
            inner = dict(v.a[2]).get('B') if v.k == 'r' else None
            v = A('wrapfn', inner if inner is not None else v)
        elif r is not None and r['bname'] == 'std::function' and r['full'] != rec['full']:
            # an empty function of another type gives an empty function
            v = unB(v)
            if v.k == 'mv':
                v = A('wrapfn', v)
            else:
                out, st0 = [], st
                for s, ok in it.truth(st0, boolof(it, v), where, fr):
                    st = s
                    out += put(wrapped(it, v, r, rec) if ok else NULL)
                return out
        if has_mv_shallow(v):
            it.event(st, 'usemoved', 'std::function', a, (v,), where, None, fr)
        elif r is not None and v.k in ('s', 'f') and r['bname'] != 'std::function':
            v = REC(r['i'], v, {})      # an object of a class, not an unknown function
        return put(v)
    if b == 'immer::box':
        t0 = (rec.get('targs') or [{}])[0].get('t')
        et = it.P.rec_of_type(t0) if t0 is not None and it.P.tk(t0) == 'rec' else None
        if not args:
            return put(A('box', it.default_of(et['i']) if et else A('new', S('?'))))
        t = ps[0]['t']
        v = it.take(st, args[0], t) if it.P.isref(t) else args[0]
        at = it.P.rec_of_type(t)
        if len(args) == 1 and at is not None and at['i'] == rec['i']:
            return put(v)
        if has_mv_shallow(v):
            it.event(st, 'usemoved', 'immer::box', args[0], (v,), where, None, fr)
        if len(args) == 1 and at is not None and et is not None and at['i'] == et['i']:
            return put(A('box', v))
        vs = [v] + it.termargs(st, args[1:], {'params': ps[1:]})
        return put(A('box', A('new', S(et['full'] if et else '?'), *vs)))
    if b == 'std::optional':
        if not args:
            return put(NULL)
        t = ps[0]['t']
        d = it.P.decay(t)
        if d == 'std::nullopt_t':
            return put(NULL)
        if d.startswith('std::optional<') or d.startswith('std::_Optional'):
            v = it.take(st, args[0], t)
            return put(v)
        if d == 'std::in_place_t':
            rest = it.termargs(st, args[1:], {'params': ps[1:]})
            return put(A('some', rest[0] if len(rest) == 1 else A('new', S(rec['full']), *rest)))
        v = it.take(st, args[0], t) if it.P.isref(t) else args[0]
        if has_mv_shallow(v):
            it.event(st, 'usemoved', 'std::optional', args[0], (v,), where, None, fr)
        return put(A('some', v))
    if b == 'std::variant':
        if not args:
            return put(A('new', S(rec['full'])))
        t = ps[0]['t']
        d = it.P.decay(t)
        if d.startswith('std::variant<'):
            return put(it.take(st, args[0], t))
        if d.startswith('std::in_place_type_t') or d.startswith('std::in_place_index_t'):
            rest = it.termargs(st, args[1:], {'params': ps[1:]})
            return put(A('alt', S(d[d.index('<') + 1:-1]), rest[0] if len(rest) == 1 else A('new', S(d), *rest)))
        v = it.take(st, args[0], t) if it.P.isref(t) else args[0]
        if has_mv_shallow(v):
            it.event(st, 'usemoved', 'std::variant', args[0], (v,), where, None, fr)
        alts = [it.P.tname(x['t']) for x in rec.get('targs', []) if 't' in x]
        alt = d if d in alts else ('conv:' + d)
        if alt not in alts and len(set(alts)) >= 1:
            # converting construction: unique alternative constructible; keep type name
            pass
        return put(A('alt', S(alt), v))
    if b in ('std::pair', 'std::tuple'):
        t0 = it.P.rec_of_type(ps[0]['t']) if ps else None
        if b == 'std::pair' and args and f['id'] in it.P.functions and not (
                t0 is not None and t0['bname'] == 'std::piecewise_construct_t'):
            return None     # the constructor itself was exported
        vals = {}
        if not args:
            for i, ta in enumerate(rec.get('targs', [])):
                k = it.P.tk(ta['t'])
                if k in ('int', 'bool', 'enum'):
                    vals['e%d' % i] = C(0)
                elif k == 'rec':
                    vals['e%d' % i] = it.default_of(it.P.types[ta['t']]['rec'])
                else:
                    vals['e%d' % i] = NULL
        else:
            off = 0
            t0 = it.P.rec_of_type(ps[0]['t']) if ps else None
            targs = rec.get('targs', [])
            if t0 is not None and t0['bname'] in ('std::piecewise_construct_t', 'std::allocator_arg_t'):
                off = 1
            n = len(targs)
            if len(args) - off == 1 and t0 is not None and tuple_like(it, t0['i']) is not None and n >= 1 and not (
                    n == 1 and it.P.tk(targs[0]['t']) == 'rec' and it.P.types[targs[0]['t']]['rec'] == t0['i']):
                # converting copy/move from another tuple/pair
                v = it.load(st, args[0])
                srct = tuple_like(it, t0['i'])
                rref = it.P.tk(ps[0]['t']) == 'rref'
                bb, pp = it.addr(args[0])
                for i in range(n):
                    x = it.field(v, 'e%d' % i)
                    st_el = srct[i]['t'] if i < len(srct) else -1
                    if it.P.isref(targs[i]['t']):
                        if not it.P.isref(st_el):
                            x = P(bb, pp + ('e%d' % i,))
                    elif it.P.isref(st_el):
                        p = x
                        x = it.load(st, p)
                        if it.P.tk(st_el) == 'rref':
                            r = it.P.rec_of_type(st_el)
                            if r is not None:
                                it.write(st, it.addr(p), it.after_move(x, r), quiet=True)
                    elif rref:
                        r = it.P.rec_of_type(st_el) if st_el >= 0 else None
                        if r is not None:
                            it.write(st, (bb, pp + ('e%d' % i,)), it.after_move(x, r), quiet=True)
                    x = conv_elem(it, x, st_el, targs[i]['t'])
                    vals['e%d' % i] = x
            else:
                for i, a in enumerate(args[off:]):
                    if i >= n:
                        break
                    tt = ps[i + off]['t'] if i + off < len(ps) else -1
                    if it.P.isref(targs[i]['t']):
                        vals['e%d' % i] = a
                    elif it.P.isref(tt):
                        v = it.take(st, a, tt)
                        if has_mv_shallow(v):
                            it.event(st, 'usemoved', rec['full'], a, (v,), where, None, fr)
                        vals['e%d' % i] = conv_elem(it, v, tt, targs[i]['t'])
                    else:
                        vals['e%d' % i] = conv_elem(it, a, tt, targs[i]['t'])
        if base:
            for k, v in vals.items():
                it.write(st, (loc[0], loc[1] + (k,)), v, quiet=True)
        else:
            it.write(st, loc, REC(rec['i'], None, vals), quiet=True)
        return [st]
    if b in CONTAINERS and not (b.startswith('std::basic_string')):
        if not args or not f['params']:
            return put(A('vec'))
        t = ps[0]['t']
        d = it.P.decay(t)
        if d.startswith('std::initializer_list'):
            return put(args[0])
        if len(args) >= 2 and all(isit(x) and x.a[0] == '$it' for x in args[:2]) and itf(args[0], 'c') is itf(args[1], 'c') and \
                b in ('std::vector', 'std::deque') and whole_type(it, st, itf(args[0], 'c'), rec):
            v, lo, hi = it.load(st, itf(args[0], 'c')), itf(args[0], 'i'), itf(args[1], 'i')
            return put((v if lo is C(0) else A('erase', v, A('itx', C(0)), A('itx', lo))) if hi is it.size(v) else
                       A('range', v, A('itx', lo), A('itx', hi)))
        return None
    if ('iterator' in b or b in ITERS) and len(args) >= 1 and ps:
        v = it.load(st, args[0]) if it.P.isref(ps[0]['t']) else args[0]
        if isit(v):
            return put(v)
    if b == 'std::atomic' and args:
        return put(args[0])
    if b == 'std::thread' and args:
        v = it.take(st, args[0], ps[0]['t'])
        rest = it.termargs(st, args[1:], {'params': ps[1:]})
        it.event(st, 'thread', '', P(*loc), (v,) + tuple(rest), where, None, fr)
        return put(A('thread', v))
    return None


def derives_function(it, rid):
    return any(it.P.records[b]['bname'] == 'std::function' for b in it.P.bases_of(rid))


def conv_elem(it, x, srct, dstt):
    """element conversion inside pair/tuple (function<A> -> function<B>)"""
    if srct is None or srct < 0 or dstt is None or dstt < 0:
        return x
    dr = it.P.rec_of_type(dstt)
    sr = it.P.rec_of_type(srct)
    if dr is not None and sr is not None and dr['i'] != sr['i']:
        if dr['bname'] == 'std::weak_ptr' and sr['bname'] == 'std::shared_ptr':
            return A('weak', x)
    return x


def tuple_like(it, rid):
    for b in it.P.bases_of(rid):
        r = it.P.records[b]
        if r['bname'] in ('std::pair', 'std::tuple'):
            return r.get('targs', [])
    return None


def elem_ptr(it, p, idx):
    b, pp = it.addr(p)
    return P(b, pp + (('i', idx),))


def mkit(vp, idx, rev=False):
    return REC('$rit' if rev else '$it', None, {'c': vp, 'i': idx})


def isit(v):
    return v.k == 'r' and v.a[0] in ('$it', '$rit')


def itf(v, k):
    return dict(v.a[2])[k]


def deref_it(it, v):
    if isit(v):
        i = itf(v, 'i')
        if v.a[0] == '$rit':
            i = it.add(i, -1)
        return elem_ptr(it, itf(v, 'c'), i)
    return None


def it_advance(it, v, n):
    if v.a[0] == '$rit':
        n = -n
    return REC(v.a[0], None, {'c': itf(v, 'c'), 'i': it.add(itf(v, 'i'), n)})


def get_index_targ(f):
    for t in f.get('targs', []):
        if 'i' in t:
            return t['i']
    return None


IDENT = {'std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::__addressof',
         'std::move_if_noexcept', 'std::launder', 'std::ref', 'std::cref', 'std::to_address'}


def call(it, f, this, args, st, fr, sid, where, atypes, e):
    bn = f['bname']
    short = f['short']
    P_ = it.P
    if not bn.startswith(('std::', 'boost::', 'immer::', '__gnu_cxx::', 'Q', 'SDL_')):
        return None
    if bn in ('std::move', 'std::copy') and len(args) == 3 and all(isit(x) and x.a[0] == '$it' for x in args):
        r = shift_front(it, args, st, where, fr)
        if r is not None:
            return r
    if bn == 'std::make_move_iterator' and isit(args[0]):
        return ret(st, args[0])
    if bn in IDENT:
        return ret(st, args[0])
    rn = f.get('rname', '')
    if this is not None:
        r = method(it, f, rn, short, this, args, st, fr, sid, where, atypes)
        if r is not None:
            return r
    return free(it, f, bn, short, this, args, st, fr, sid, where, atypes)


def pfx(rn, names):
    return rn in names


def method(it, f, rn, short, this, args, st, fr, sid, where, atypes):
    P_ = it.P
    v = None
    # ---- pointers
    if rn in SMARTS or rn == 'std::reference_wrapper':
        v = it.load(st, this)
        if short in ('operator->', 'operator*', 'get') or (f.get('conv') and rn == 'std::reference_wrapper'):
            if rn != 'std::reference_wrapper' and short != 'get':
                if isc(v) and v.a[0] is None:
                    st = st.copy()
                    it.event(st, 'nullderef', f['bname'], this, (v,), where, None, fr)
                elif v.k in ('a', 's', 'f', 'd', 'mv') and st.facts.get(v) is False:
                    st = st.copy()
                    it.event(st, 'nullderef', f['bname'], this, (v,), where, None, fr)
            return ret(st, v)
        if short == 'operator bool':
            return ret(st, boolof(it, v))
        if short == 'reset':
            st = st.copy()
            it.event(st, 'release', f['bname'], this, (v,), where, None, fr)
            if args and f['params']:
                it.store(st, this, args[0], where, fr)
            else:
                it.store(st, this, NULL, where, fr)
            return ret(st, VOID)
        if short == 'release':
            st = st.copy()
            it.store(st, this, NULL, where, fr)
            return ret(st, v)
        if short == 'lock':
            if v.k == 'a' and v.a[0] == 'weak':
                inner = v.a[1][0]
                if isc(inner):
                    return ret(st, inner)
                atom = A('alive', inner)
                out = []
                for s, b in it.truth(st, atom, where, fr):
                    out.append((s, inner if b else NULL))
                return out
            if isc(v):
                return ret(st, v)
            return ret(st, A('lock', v))
        if short == 'expired':
            if v.k == 'a' and v.a[0] == 'weak':
                return ret(st, it.mknot(A('alive', v.a[1][0])))
            return ret(st, it.mknot(A('lock', v)))
        if short == 'operator=':
            st = st.copy()
            t = f['params'][0]['t']
            if P_.isref(t):
                nv = it.take(st, args[0], t)
                src = P_.rec_of_type(t)
                if rn in ('std::weak_ptr', 'std::__weak_ptr') and src and src['bname'] in ('std::shared_ptr', 'std::__shared_ptr'):
                    nv = A('weak', nv) if not isc(nv) else nv
            else:
                nv = args[0]
            it.store(st, this, nv, where, fr)
            return ret(st, this)
        if short == 'swap':
            return do_swap(it, this, args[0], st, where, fr)
        if short == 'operator()' and rn == 'std::reference_wrapper':
            fv = it.load(st, v)
            return it.invoke_value(fv, v, args, st, fr, sid, where, atypes)
        if short == 'owner_before':
            o = it.load(st, args[0])
            return ret(st, A('owner_before', unweak(v), unweak(o)))
        if short == 'use_count':
            return ret(st, A('use_count', v))
        return None
    # ---- std::function
    if rn == 'std::function':
        v = unB(it.load(st, this))
        if short == 'operator()':
            fptr = None
            if v.k == 'r' and isinstance(v.a[0], int) and P_.records[v.a[0]].get('lambda'):
                # the closure stored in the function object: it keeps what a call changes
                b, pth = it.addr(this)
                x = it.load(st, this)
                while x is not v and x.k == 'r' and 'B' in dict(x.a[2]):
                    x = dict(x.a[2])['B']
                    pth = pth + ('B',)
                if x is v and pth and pth[-1] == 'B':
                    fptr = P(b, pth)
            args = list(args)
            return it.invoke_value(v, fptr, args, st, fr, sid, where, [p['t'] for p in f['params']], at=this)
        if short == 'operator bool':
            return ret(st, boolof(it, v))
        if short == 'operator=':
            st = st.copy()
            t = f['params'][0]['t']
            if P_.tk(t) == 'nullptr':
                nv = NULL
            elif P_.isref(t):
                nv = unB(it.take(st, args[0], t))
                r = P_.rec_of_type(t)
                if r is not None and r['bname'] == 'std::function' and r['full'] != P_.records[f['rec']]['full']:
                    nv = A('wrapfn', nv)
            else:
                nv = args[0]
            old = it.load(st, this)
            if old.k == 'r' and 'B' in dict(old.a[2]):
                b, p = it.addr(this)
                it.write(st, (b, p + ('B',)), nv, where, fr)
            else:
                it.store(st, this, nv, where, fr)
            return ret(st, this)
        if short == 'target':
            ta = P_.decay(f['targs'][0]['t']) if f.get('targs') and 't' in f['targs'][0] else ''
            if isc(v) or v.k == 'a' and v.a[0] == 'wrapfn' or v.k == 'fn':
                return ret(st, NULL)
            if v.k == 'r' and isinstance(v.a[0], int):
                if P_.records[v.a[0]]['full'] != ta:
                    return ret(st, NULL)
                return ret(st, P(('target', v)))
            return ret(st, A('target:' + ta, v))
        if short == 'swap':
            return do_swap(it, this, args[0], st, where, fr)
        return None
    if rn in ('std::tuple', 'std::pair') and short == 'operator=' and len(args) == 1:
        src = P_.rec_of_type(f['params'][0]['t'])
        tl, sl = tuple_like(it, f['rec']), tuple_like(it, src['i']) if src is not None else None
        if tl and sl and len(tl) == len(sl) and (src['full'] != P_.records[f['rec']]['full'] or any(P_.isref(x['t']) for x in tl)):
            st = st.copy()
            t = f['params'][0]['t']
            tl, sl = [x['t'] for x in tl], [x['t'] for x in sl]
            v = it.load(st, this)
            b, p = it.addr(this)
            move = P_.tk(t) == 'rref' or not P_.isref(t)
            for i, x in enumerate(tl):
                k = 'e%d' % i
                if args[0].k == 'p' and P_.isref(t):
                    sb, sp = it.addr(args[0])
                    a = P(sb, sp + (k,))
                    y = it.take(st, a, t) if move and not P_.isref(sl[i]) else it.load(st, a)
                    if P_.isref(sl[i]) and y.k == 'p':
                        y = it.load(st, y)
                else:
                    y = it.field(it.load(st, args[0]) if args[0].k == 'p' else args[0], k)
                if P_.isref(x):
                    it.store(st, it.field(v, k), y, where, fr)
                else:
                    it.write(st, (b, p + (k,)), y, where, fr)
            return ret(st, this)
    if rn == 'immer::box':
        if short in ('get', 'operator*', 'operator->') or f.get('conv'):
            b, p = it.addr(this)
            return ret(st, P(b, p + ('box',)))
        if short == 'update':
            b, p = it.addr(this)
            out = []
            fn = it.load(st, args[0]) if args[0].k == 'p' else args[0]
            for s, x in it.invoke_value(fn, args[0] if args[0].k == 'p' else None, [P(b, p + ('box',))], st, fr, sid, where, refs=True):
                if s.exc is None:
                    if x.k == 'p':
                        x = it.load(s, x)
                    out += altered_in(it, f, this, A('box', x), s, where, fr)
                else:
                    out.append((s, x))
            return out
        if short == 'operator=' and args:
            st = st.copy()
            t = f['params'][0]['t']
            it.store(st, this, it.take(st, args[0], t) if it.P.isref(t) else args[0], where, fr)
            return ret(st, this)
    # ---- optional
    if rn in ('std::optional', 'std::_Optional_base_impl', 'std::_Optional_base', 'std::_Optional_payload'):
        v = it.load(st, this)
        b, p = it.addr(this)
        if short in ('operator*', 'operator->', 'value'):
            if short == 'value':
                out = []
                for s, ok in it.truth(st, boolof(it, v), where, fr):
                    if ok:
                        out.append((s, P(b, p + ('val',))))
                    else:
                        s = s.copy()
                        it.event(s, 'throw', 'std::bad_optional_access', None, (), where, None, fr)
                        s.exc = A('exc', S('std::bad_optional_access'))
                        out.append((s, VOID))
                return out
            if (isc(v) and v.a[0] is None) or st.facts.get(v) is False:
                st = st.copy()
                it.event(st, 'nullderef', f['bname'], this, (v,), where, None, fr)
            elif v.k not in ('r',) and not (v.k == 'a' and v.a[0] == 'some') and st.facts.get(v) is not True:
                st = st.copy()
                it.event(st, 'maybenullderef', f['bname'], this, (v,), where, None, fr)
            return ret(st, P(b, p + ('val',)))
        if short in ('operator bool', 'has_value', '_M_is_engaged'):
            return ret(st, boolof(it, v))
        if short == 'value_or':
            t = f['params'][0]['t']
            out = []
            for s, ok in it.truth(st, boolof(it, v), where, fr):
                out.append((s, it.field(v, 'val') if ok else it.load(s, args[0])))
            return out
        if short == 'operator=':
            st = st.copy()
            t = f['params'][0]['t']
            d = P_.decay(t)
            if d == 'std::nullopt_t':
                nv = NULL
            else:
                nv = it.take(st, args[0], t) if P_.isref(t) else args[0]
                if not d.startswith('std::optional<'):
                    nv = A('some', nv)
            it.store(st, this, nv, where, fr)
            return ret(st, this)
        if short == 'reset':
            st = st.copy()
            it.store(st, this, NULL, where, fr)
            return ret(st, VOID)
        if short == 'emplace':
            st = st.copy()
            ts = it.termargs(st, args, f)
            it.consume_refs(st, f, args)
            it.store(st, this, A('some', ts[0] if len(ts) == 1 else A('new', S(rn), *ts)), where, fr)
            return ret(st, P(b, p + ('val',)))
        return None
    if rn == 'std::variant':
        v = it.load(st, this)
        if short == 'index':
            return ret(st, A('vindex', v))
        if short == 'operator=':
            st = st.copy()
            t = f['params'][0]['t']
            d = P_.decay(t)
            nv = it.take(st, args[0], t) if P_.isref(t) else args[0]
            if not d.startswith('std::variant<'):
                nv = A('alt', S(d), nv)
            it.store(st, this, nv, where, fr)
            return ret(st, this)
        if short == 'emplace':
            st = st.copy()
            t = P_.tname(f['targs'][0]['t']) if f.get('targs') and 't' in f['targs'][0] else '?'
            ts = it.termargs(st, args, f)
            it.store(st, this, A('alt', S(t), ts[0] if len(ts) == 1 else A('new', S(t), *ts)), where, fr)
            b, p = it.addr(this)
            return ret(st, P(b, p + (('alt', S(t)),)))
        return None
    # ---- locks
    if rn in LOCKS:
        v = it.load(st, this)
        b, p = it.addr(this)
        if short == 'unlock':
            st = it.unlock(st, this, fr, where)
            return ret(st, VOID)
        if short == 'lock':
            st = st.copy()
            it.lock(st, this, it.field(v, 'm'), fr, where)
            it.write(st, (b, p + ('own',)), TRUE, quiet=True)
            return ret(st, VOID)
        if short in ('owns_lock', 'operator bool'):
            return ret(st, it.field(v, 'own'))
        if short == 'try_lock':
            no, st = st.copy(), st.copy()
            it.lock(st, this, it.field(v, 'm'), fr, where)
            it.write(st, (b, p + ('own',)), TRUE, quiet=True)
            return [(no, FALSE), (st, TRUE)]
        if short == 'release':
            st = st.copy()
            it.write(st, (b, p + ('own',)), FALSE, quiet=True)
            return ret(st, it.field(v, 'm'))
        return None
    if rn in ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::__mutex_base'):
        st = st.copy()
        if short == 'lock':
            it.lock(st, None, this, fr, where)
            return ret(st, VOID)
        if short == 'try_lock':
            no = st.copy()
            it.lock(st, None, this, fr, where)
            return [(no, FALSE), (st, TRUE)]
        if short == 'unlock':
            h = list(st.held)
            if this in h:
                h.remove(this)
            st.held = tuple(h)
            it.event(st, 'unlock', '', this, (), where, None, fr)
            return ret(st, VOID)
        return None
    if rn in ('std::condition_variable', 'std::condition_variable_any', 'std::_V2::condition_variable'):
        st = st.copy()
        if short.startswith('wait'):
            it.event(st, 'cvwait', short, this, args, where, None, fr)
            if len(args) >= 2 and short == 'wait':
                pv = it.load(st, args[1]) if args[1].k == 'p' else args[1]
                out = []
                for s, v in it.invoke_value(pv, None, [], st, fr, (sid, 'pred'), where):
                    if s.exc is not None:
                        out.append((s, VOID))
                        continue
                    for s2, b in it.truth(s, v, where, fr):
                        if b:
                            out.append((s2, VOID))
                return out
            return ret(st, A('cvwait'))
        it.event(st, 'cvnotify', short, this, args, where, None, fr)
        return ret(st, VOID)
    if rn == 'std::atomic' or rn == 'std::__atomic_base':
        v = it.load(st, this)
        if short in ('load',) or f.get('conv'):
            return ret(st, v)
        if short in ('store', 'operator='):
            st = st.copy()
            it.store(st, this, args[0], where, fr)
            return ret(st, args[0])
        if short == 'exchange':
            st = st.copy()
            it.store(st, this, args[0], where, fr)
            return ret(st, v)
        return None
    # ---- iterators
    if this is not None:
        v = it.load(st, this)
        if isit(v):
            if short in ('operator*', 'operator->'):
                return ret(st, deref_it(it, v))
            if short in ('operator++', 'operator--'):
                st = st.copy()
                nv = it_advance(it, v, 1 if short == 'operator++' else -1)
                it.store(st, this, nv, where, fr)
                return ret(st, v if len(f['params']) == 1 else this)
            if short in ('operator+', 'operator-') and args and not isit(args[0]):
                a = args[0] if args[0].k != 'p' else it.load(st, args[0])
                if isc(a) and isinstance(a.a[0], int):
                    return ret(st, it_advance(it, v, a.a[0] if short == 'operator+' else -a.a[0]))
                return ret(st, REC(v.a[0], None, {'c': itf(v, 'c'), 'i': it.arith('+' if short == 'operator+' else '-', itf(v, 'i'), a)}))
            if short in ('operator+=', 'operator-='):
                a = args[0] if args[0].k != 'p' else it.load(st, args[0])
                if isc(a):
                    st = st.copy()
                    it.store(st, this, it_advance(it, v, a.a[0] if short == 'operator+=' else -a.a[0]), where, fr)
                    return ret(st, this)
            if short == 'operator[]':
                a = args[0] if args[0].k != 'p' else it.load(st, args[0])
                return ret(st, elem_ptr(it, itf(v, 'c'), it.arith('+', itf(v, 'i'), a)))
            if short in ('operator==', 'operator!='):
                o = it.load(st, args[0])
                if isit(o):
                    r = it.mkeq(itf(v, 'i'), itf(o, 'i'))
                    return ret(st, r if short == 'operator==' else it.mknot(r))
    # ---- containers
    if rn in CONTAINERS:
        r = container(it, f, rn, short, this, args, st, fr, sid, where)
        if r is not None:
            return r
    return None


def unB(v):
    while v.k == 'r':
        b = dict(v.a[2]).get('B')
        if b is None:
            break
        v = b
    return v


def wrapped(it, v, inner, outer):
    """a function object in one of another type, which converts its argument to what the inner one takes"""
    pi, po = unary(inner['full']), unary(outer['full'])
    if pi and po and pi != po and pi.startswith('std::variant<') and not po.startswith('std::variant<'):
        return A('wrapfn', v, S(po))
    return A('wrapfn', v)


def unary(full):
    """the type of the only parameter of std::function<R (T)>"""
    if not full.endswith(')>'):
        return None
    d, i = 0, len(full) - 2
    while i >= 0:
        d += {')': 1, '(': -1}.get(full[i], 0)
        if d == 0:
            break
        i -= 1
    t = full[i + 1:-2].strip()
    d = 0
    for c in t:
        d += {'<': 1, '(': 1, '>': -1, ')': -1}.get(c, 0)
        if c == ',' and d == 0:
            return None
    return t


def unwrapfn(v):
    while v.k == 'a' and v.a[0] == 'wrapfn':
        v = unB(v.a[1][0])
    return v


def unweak(v):
    return v.a[1][0] if v.k == 'a' and v.a[0] == 'weak' else v


def boolof(it, v):
    if isc(v):
        return C(1 if v.a[0] else 0)
    if v.k in ('p', 'fn'):
        return TRUE
    if v.k == 'a' and v.a[0] in ('some', 'wrapfn'):
        return TRUE
    if v.k == 'r' and isinstance(v.a[0], int):
        return TRUE
    return v


def do_swap(it, a, b, st, where, fr):
    st = st.copy()
    x, y = it.load(st, a), it.load(st, b)
    it.store(st, a, y, where, fr)
    it.store(st, b, x, where, fr)
    it.event(st, 'swap', '', a, (b, x, y), where, None, fr)
    return ret(st, VOID)


def altered_in(it, f, this, nv, st, where, fr):
    """an immutable operation on an rvalue may alter the object itself and return it"""
    if it.P.isref(f['ret']):
        it.store(st, this, nv, where, fr)
        return ret(st, this)
    return ret(st, nv)


def container(it, f, rn, short, this, args, st, fr, sid, where):
    v = it.load(st, this)
    imm = rn.startswith('immer::') and not rn.endswith('_transient')
    sequence = rn.split('::')[-1] not in ('map', 'set', 'unordered_map', 'map_transient', 'set_transient')

    def evt(name, *a):
        it.event(st, 'cont', name, this, a, where, None, fr)

    def altered(nv):
        return altered_in(it, f, this, nv, st, where, fr)

    if short in ('begin', 'cbegin'):
        return ret(st, mkit(this, C(0)))
    if short in ('end', 'cend'):
        return ret(st, mkit(this, it.size(v)))
    if short in ('rbegin', 'crbegin'):
        return ret(st, mkit(this, it.size(v), True))
    if short in ('rend', 'crend'):
        return ret(st, mkit(this, C(0), True))
    if short in ('size', 'length'):
        return ret(st, it.size(v))
    if short == 'empty':
        return ret(st, it.mkeq(it.size(v), C(0)))
    if short == 'swap' and args:
        return do_swap(it, this, args[0], st, where, fr)
    if short in ('reserve', 'shrink_to_fit'):
        return ret(st, VOID)
    if short == 'clear':
        st = st.copy()
        evt('clear', v)
        it.store(st, this, A('vec'), where, fr)
        return ret(st, VOID)
    if short == 'operator=' and args:
        st = st.copy()
        t = f['params'][0]['t']
        if it.P.isref(t):
            nv = it.take(st, args[0], t)
        else:
            nv = args[0]
        it.store(st, this, nv, where, fr)
        return ret(st, this)
    if sequence:
        if short in ('push_back', 'emplace_back', 'push', 'emplace') and not imm and rn != 'std::map':
            st = st.copy()
            ts = []
            for i, a in enumerate(args):
                t = f['params'][i]['t'] if i < len(f['params']) else -1
                if rn.startswith('boost::intrusive'):
                    ts.append(a)
                elif it.P.isref(t):
                    x = it.take(st, a, t)
                    if has_mv_shallow(x):
                        it.event(st, 'usemoved', f['bname'], a, (x,), where, None, fr)
                    ts.append(x)
                else:
                    ts.append(a)
            if short in ('emplace_back', 'emplace', 'push_back') and len(ts) == 1:
                x = ts[0]
                # element conversion (shared -> weak, ...)
                et = elem_type(it, f)
                at = it.P.rec_of_type(f['params'][0]['t']) if f['params'] else None
                if et is not None and at is not None and et['bname'] == 'std::weak_ptr' and at['bname'] == 'std::shared_ptr':
                    x = A('weak', x)
                if et is not None and short != 'push_back' and at is not None and at['i'] != et['i'] and et['bname'] not in SMARTS + ('std::function',):
                    x = A('new', S(et['full']), x)
            elif len(ts) == 0:
                et = elem_type(it, f)
                x = it.default_of(et['i']) if et else A('new', S('?'))
            else:
                et = elem_type(it, f)
                x = A('new', S(et['full'] if et else '?'), *ts)
            evt('push_back', x)
            it.store(st, this, A('push', v, x), where, fr)
            b, p = it.addr(this)
            return ret(st, P(b, p + (('i', it.size(v)),)))
        if short in ('push_front', 'emplace_front') and not imm:
            st = st.copy()
            ts = it.termargs(st, args, f)
            it.consume_refs(st, f, args)
            evt('push_front', ts[0])
            it.store(st, this, A('pushf', v, ts[0]), where, fr)
            return ret(st, VOID)
        if short in ('insert', 'emplace') and not imm and len(args) == 2 and \
                (rn in ('std::vector', 'std::deque', 'std::list') or rn.startswith('boost::intrusive') and short == 'insert'):
            a = args[0] if isit(args[0]) else it.load(st, args[0]) if args[0].k == 'p' else args[0]
            if isit(a):
                st = st.copy()
                x = it.take(st, args[1], f['params'][1]['t']) if it.P.isref(f['params'][1]['t']) and \
                    not rn.startswith('boost::intrusive') else args[1]
                i = itf(a, 'i')
                evt('push_front' if i is C(0) else 'push_back' if i is it.size(v) else 'insert', x)
                it.store(st, this, A('pushf', v, x) if i is C(0) else A('push', v, x) if i is it.size(v) else A('insert', v, A('itx', i), x),
                         where, fr)
                return ret(st, a)
        if short in ('front',):
            return ret(st, elem_ptr(it, this, C(0)))
        if short in ('back',):
            return ret(st, elem_ptr(it, this, it.add(it.size(v), -1)))
        if short == 'operator[]':
            i = args[0] if args[0].k != 'p' else it.load(st, args[0])
            st = st.copy()
            it.event(st, 'index', f['bname'], this, (v, i), where, None, fr)
            return ret(st, elem_ptr(it, this, i))
        if short == 'at':
            i = args[0] if args[0].k != 'p' else it.load(st, args[0])
            out = []
            inb = it.mklt(i, it.size(v))
            for s, ok in it.truth(st, inb, where, fr):
                s = s.copy()
                if ok:
                    it.event(s, 'index', f['bname'], this, (v, i), where, None, fr)
                    out.append((s, elem_ptr(it, this, i)))
                else:
                    it.event(s, 'throw', 'std::out_of_range', None, (), where, None, fr)
                    s.exc = A('exc', S('std::out_of_range'))
                    out.append((s, VOID))
            return out
        if short in ('pop_front',) or (short == 'pop' and rn == 'std::queue'):
            st = st.copy()
            evt('pop_front', v)
            it.store(st, this, A('popf', v), where, fr)
            return ret(st, VOID)
        if short == 'pop_back':
            st = st.copy()
            evt('pop_back', v)
            it.store(st, this, A('popb', v), where, fr)
            return ret(st, VOID)
        if short == 'erase' and v.k == 'a' and v.a[0] == 'shifted' and len(args) == 2 and all(isit(x) for x in args) and \
                itf(args[0], 'i') is kept_of(it, v) and itf(args[1], 'i') is it.size(v):
            st = st.copy()
            evt('erase', v)
            it.store(st, this, without_front(it, v), where, fr)
            return ret(st, args[0])
        if short == 'resize' and len(args) == 1 and not imm and rn in ('std::vector', 'std::deque'):
            st = st.copy()
            n = it.load(st, args[0]) if args[0].k == 'p' else args[0]
            evt('resize', v, n)
            nv = A('vec') if n is C(0) else v if n is it.size(v) else A('resize', v, n)
            if v.k == 'a' and v.a[0] == 'shifted' and n is kept_of(it, v):
                nv = without_front(it, v)
            it.store(st, this, nv, where, fr)
            return ret(st, VOID)
        if short == 'erase' and len(args) >= 1 and not imm:
            st = st.copy()
            a = [x if isit(x) else (it.load(st, x) if x.k == 'p' else x) for x in args]
            evt('erase', v, *a)
            nv = A('erase', v, *[A('itx', itf(x, 'i')) if isit(x) else x for x in a])
            if len(a) == 1 and isit(a[0]) and itf(a[0], 'i') is C(0):
                nv = A('popf', v)
            if v.k == 'a' and v.a[0] == 'removed' and len(a) == 2 and isit(a[0]) and isit(a[1]) and \
                    itf(a[0], 'i') is A('keptend', v.a[1][1]) and itf(a[1], 'i') in (
                        it.size(v), it.size(v.a[1][0])):
                nv = A('filtered', *v.a[1])
            it.store(st, this, nv, where, fr)
            return ret(st, a[0] if isit(a[0]) else VOID)
        if short == 'persistent':
            return ret(st, v)
        if short == 'data':
            return ret(st, elem_ptr(it, this, C(0)))
        if imm and short in ('transient',):
            return ret(st, v)
        if imm and short == 'push_back':
            st = st.copy()
            t = f['params'][0]['t']
            x = it.take(st, args[0], t) if it.P.isref(t) else args[0]
            return altered(A('push', v, x))
        if imm and short == 'take':
            st = st.copy()
            n = it.load(st, args[0]) if args[0].k == 'p' else args[0]
            return altered(A('take', v, n))
        if imm and short == 'update':
            i = it.load(st, args[0]) if args[0].k == 'p' else args[0]
            st = st.copy()
            it.event(st, 'index', f['bname'], this, (v, i), where, None, fr)
            fn = it.load(st, args[1]) if args[1].k == 'p' else args[1]
            out = []
            for s, x in it.invoke_value(fn, args[1] if args[1].k == 'p' else None, [elem_ptr(it, this, i)], st, fr, sid, where, refs=True):
                if s.exc is None:
                    if x.k == 'p':
                        x = it.load(s, x)
                    et = elem_type(it, f)
                    if et is not None and et['bname'] == 'immer::box' and x.k == 'r' and x.a[0] is not None and x.a[0] != et['i']:
                        x = A('box', x)
                    out += altered_in(it, f, this, it.setpath(it.load(s, this), (('i', i),), x), s, where, fr)
                else:
                    out.append((s, x))
            return out
        if imm and short == 'set':
            i = args[0]
            x = args[1]
            t = f['params'][1]['t']
            st = st.copy()
            if it.P.isref(t):
                x = it.take(st, x, t)
            it.event(st, 'index', f['bname'], this, (v, i), where, None, fr)
            return altered(it.setpath(v, (('i', i),), x))
    else:
        if short in ('transient', 'persistent'):
            return ret(st, v)
        if short in ('set', 'insert', 'erase') and rn.startswith('immer::'):
            st = st.copy()
            xs = []
            for a, p in zip(args, f['params']):
                x = it.take(st, a, p['t']) if it.P.isref(p['t']) else a
                if has_mv_shallow(x):
                    it.event(st, 'usemoved', f['bname'], a, (x,), where, None, fr)
                xs.append(x)
            if short == 'insert' and rn in ('immer::map', 'immer::map_transient'):
                xs = [it.field(xs[0], 'e0'), it.field(xs[0], 'e1')]
            nv = A('erase' if short == 'erase' else 'put', v, *xs)
            if not imm:
                it.store(st, this, nv, where, fr)
                return ret(st, VOID)
            return altered(nv)
        if short in ('count',):
            k = it.load(st, args[0]) if args[0].k == 'p' else args[0]
            return ret(st, A('count', v, k))
        if short == 'find':
            k = it.load(st, args[0]) if args[0].k == 'p' else args[0]
            if imm:
                return ret(st, A('find', v, k))
            return ret(st, mkit(this, A('find', v, k)))
    return None


def elem_type(it, f):
    r = it.P.records[f['rec']]
    t = (r.get('targs') or [{}])[0].get('t')
    if t is None:
        return None
    return it.P.rec_of_type(t) if it.P.tk(t) == 'rec' else None


def tup_get(it, tp, i, st, trec):
    """address of the i-th element of the tuple at tp (resolving reference elements)"""
    b, p = it.addr(tp)
    loc = (b, p + ('e%d' % i,))
    targs = tuple_like(it, trec) if trec is not None else None
    if targs and i < len(targs) and it.P.isref(targs[i].get('t')):
        return it.read(st, loc)
    return P(*loc)


def free(it, f, bn, short, this, args, st, fr, sid, where, atypes):
    P_ = it.P
    if bn in ('std::get', 'std::__get_helper', 'std::get_if'):
        t0 = f['params'][0]['t'] if f['params'] else -1
        rec = P_.rec_of_type(t0)
        if rec is not None:
            tl = tuple_like(it, rec['i'])
            if tl is not None:
                i = get_index_targ(f)
                if i is None:
                    # by type
                    want = P_.tname(f['targs'][0]['t'])
                    idx = [k for k, ta in enumerate(tl) if P_.tname(ta['t']) == want]
                    i = idx[0] if idx else 0
                return ret(st, tup_get(it, args[0], i, st, rec['i']))
            if rec['bname'] == 'std::variant':
                i = get_index_targ(f)
                if i is not None:
                    T = P_.tname(rec['targs'][i]['t'])
                else:
                    T = P_.tname(f['targs'][0]['t'])
                b, p = it.addr(args[0])
                v = it.load(st, args[0])
                target = P(b, p + (('alt', S(T)),))
                cond = holds(it, v, T)
                out = []
                if bn == 'std::get_if':
                    for s, ok in it.truth(st, cond, where, fr):
                        out.append((s, target if ok else NULL))
                    return out
                for s, ok in it.truth(st, cond, where, fr):
                    if ok:
                        out.append((s, target))
                    else:
                        s = s.copy()
                        it.event(s, 'throw', 'std::bad_variant_access', None, (), where, None, fr)
                        s.exc = A('exc', S('std::bad_variant_access'))
                        out.append((s, VOID))
                return out
            if rec['bname'] == 'std::array':
                return ret(st, elem_ptr(it, args[0], C(get_index_targ(f))))
    if bn == 'std::holds_alternative':
        v = it.load(st, args[0])
        return ret(st, holds(it, v, P_.tname(f['targs'][0]['t'])))
    if bn == 'immer::for_each_chunk' and len(args) == 2:
        # the chunks of a range, in order, are the range
        rec = P_.rec_of_type(f['params'][0]['t'])
        if rec is not None and rec['bname'] in CONTAINERS and args[0].k == 'p':
            v = it.load(st, args[0])
            fv = it.load(st, args[1]) if args[1].k == 'p' else args[1]
            return it.invoke_value(fv, args[1] if args[1].k == 'p' else None,
                                   [mkit(args[0], C(0)), mkit(args[0], it.size(v))], st, fr, sid, where, None)
    if bn == 'std::visit':
        return visit(it, f, args, st, fr, sid, where)
    if bn in ('std::make_tuple', 'std::make_pair', 'std::tie', 'std::forward_as_tuple'):
        rr = P_.rec_of_type(f['ret'])
        st = st.copy()
        vals = {}
        targs = rr.get('targs', [])
        for i, a in enumerate(args):
            if i < len(targs) and P_.isref(targs[i]['t']):
                vals['e%d' % i] = a if a.k == 'p' or True else a
            else:
                t = f['params'][i]['t']
                x = it.take(st, a, t) if P_.isref(t) else a
                if has_mv_shallow(x):
                    it.event(st, 'usemoved', bn, a, (x,), where, None, fr)
                vals['e%d' % i] = x
        return ret(st, REC(rr['i'], None, vals))
    if bn == 'std::tuple_cat':
        rr = P_.rec_of_type(f['ret'])
        vals = {}
        n = 0
        for j, a in enumerate(args):
            src = P_.rec_of_type(f['params'][j]['t'])
            tl = tuple_like(it, src['i']) or []
            v = it.load(st, a)
            for i in range(len(tl)):
                vals['e%d' % n] = it.field(v, 'e%d' % i)
                n += 1
        return ret(st, REC(rr['i'], None, vals))
    if bn in ('std::make_shared', 'std::make_unique', 'std::allocate_shared'):
        t = f['targs'][0]['t']
        rec = P_.rec_of_type(t)
        loc = (('h', fr.fid, sid), ())
        if rec is None:
            st = st.copy()
            st.mem[loc[0]] = it.load(st, args[0]) if args else C(0)
            return ret(st, P(*loc))
        cands = [c for c in P_.fnrefs.values() if c.get('ctor') and c.get('rec') == rec['i']
                 and len(c['params']) == len(args) and not c.get('deleted')]
        ats = [p['t'] for p in f['params']]
        best, bs = None, -1
        for c in cands:
            sc = 0
            ok = True
            for p, a in zip(c['params'], ats):
                if P_.decay(p['t']) == P_.decay(a):
                    sc += 3
                    if p['t'] == a:
                        sc += 1
                else:
                    pr, ar = P_.rec_of_type(p['t']), P_.rec_of_type(a)
                    if pr and ar and pr['i'] != ar['i'] and pr['i'] in P_.bases_of(ar['i']):
                        sc += 1
            if c['id'] in P_.functions:
                sc += 0.5
            if sc > bs:
                best, bs = c, sc
        if best is None:
            if not args:
                st = st.copy()
                st.mem[loc[0]] = REC(rec['i'], None, {}) if rec.get('def') else A('new', S(rec['full']))
                it.event(st, 'new', rec['full'], P(*loc), (), where, None, fr)
                return ret(st, P(*loc))
            it.note('make_shared:' + rec['full'])
            st = st.copy()
            st.mem[loc[0]] = A('new', S(rec['full']), *it.termargs(st, args, f))
            it.event(st, 'new', rec['full'], P(*loc), args, where, None, fr)
            return ret(st, P(*loc))
        # by-value parameters take the referenced value
        a2 = []
        st = st.copy()
        for p, a, at in zip(best['params'], args, ats):
            if P_.isref(p['t']):
                a2.append(a)
            else:
                a2.append(pass_value(it, st, a, at, p['t'], fr, where))
        outs = []
        for s in it.ctor_call(best, loc, a2, ats, st, fr, sid, where):
            if s.exc is None:
                s = s.copy()
                it.event(s, 'new', rec['full'], P(*loc), args, where, None, fr)
            outs.append((s, P(*loc)))
        return outs
    if bn in ('std::apply', 'std::__apply_impl') and f['id'] not in P_.functions:
        it.note('std::apply unfollowed')
    if bn in ('std::swap', 'std::iter_swap', 'std::ranges::swap'):
        return do_swap(it, args[0], args[1], st, where, fr)
    if bn == 'std::exchange':
        st = st.copy()
        old = it.load(st, args[0])
        t = f['params'][1]['t']
        nv = it.take(st, args[1], t) if P_.isref(t) else args[1]
        it.store(st, args[0], nv, where, fr)
        return ret(st, old)
    if bn in ('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::size', 'std::empty', 'std::data'):
        v = it.load(st, args[0])
        if short in ('begin', 'cbegin'):
            return ret(st, mkit(args[0], C(0)))
        if short in ('end', 'cend'):
            return ret(st, mkit(args[0], it.size(v)))
        if short == 'size':
            return ret(st, it.size(v))
        if short == 'empty':
            return ret(st, it.mkeq(it.size(v), C(0)))
    if short in ('operator==', 'operator!=') and len(args) == 2 and this is None:
        a = args[0] if P_.tk(f['params'][0]['t']) not in ('lref', 'rref') else it.load(st, args[0])
        b = args[1] if P_.tk(f['params'][1]['t']) not in ('lref', 'rref') else it.load(st, args[1])
        if isit(a) and isit(b):
            r = it.mkeq(itf(a, 'i'), itf(b, 'i'))
            return ret(st, r if short == 'operator==' else it.mknot(r))
        ra = P_.rec_of_type(f['params'][0]['t'])
        rb = P_.rec_of_type(f['params'][1]['t'])
        names = {x['bname'] for x in (ra, rb) if x}
        if names & {'std::function', 'std::shared_ptr', 'std::unique_ptr', 'std::optional'}:
            ta = P_.decay(f['params'][1]['t'])
            if 'nullopt' in ta or 'nullptr' in ta:
                r = it.mknot(boolof(it, unB(a)))
            else:
                r = it.mkeq(a, b)
            return ret(st, r if short == 'operator==' else it.mknot(r))
    if bn in ('std::next', 'std::prev') and isit(args[0]):
        n = args[1] if len(args) > 1 else C(1)
        if isc(n):
            return ret(st, it_advance(it, args[0], n.a[0] if short == 'next' else -n.a[0]))
        if args[0].a[0] == '$it' and n.k != 'p':
            return ret(st, mkit(itf(args[0], 'c'), it.arith('+' if short == 'next' else '-', itf(args[0], 'i'), n)))
    if bn in ('std::distance',) and isit(args[0]) and isit(args[1]):
        return ret(st, it.arith('-', itf(args[1], 'i'), itf(args[0], 'i')))
    if bn in ('std::ref', 'std::cref'):
        return ret(st, args[0])
    if bn in ('std::remove_if', 'std::find_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find', 'std::remove',
              'std::count_if', 'std::erase_if', 'std::erase', 'std::find_if_not', 'std::partition', 'std::stable_partition'):
        return algo(it, f, bn, args, st, fr, sid, where)
    if bn == 'std::mem_fn':
        return ret(st, args[0])
    if bn in ('std::make_optional',):
        st = st.copy()
        t = f['params'][0]['t']
        x = it.take(st, args[0], t)
        return ret(st, A('some', x))
    if bn in ('std::max', 'std::min') and len(args) == 2:
        a, b = it.load(st, args[0]), it.load(st, args[1])
        if isc(a) and isc(b):
            return ret(st, args[0] if (a.a[0] < b.a[0]) == (short == 'min') else args[1])
        out = []
        for s, lt in it.truth(st, it.mklt(a, b), where, fr):
            out.append((s, args[0] if lt == (short == 'min') else args[1]))
        return out
    if bn == 'std::uncaught_exceptions':
        # zero on every normal path; positive while unwinding: handled by the caller of dtors
        return ret(st, A('uncaught', S(str(bool(st.exc)))))
    return None


def pass_value(it, st, a, at, pt, fr, where):
    """argument `a` (address of type at) initialises a by-value parameter of type pt"""
    v = it.take(st, a, at) if it.P.isref(at) else a
    if has_mv_shallow(v):
        it.event(st, 'usemoved', 'by-value argument', a, (v,), where, None, fr)
    pr, ar = it.P.rec_of_type(pt), it.P.rec_of_type(at)
    if pr is not None and ar is not None and pr['i'] != ar['i']:
        if pr['bname'] == 'std::weak_ptr' and ar['bname'] == 'std::shared_ptr':
            return A('weak', v)
    return v


def holds(it, v, T):
    if v.k == 'a' and v.a[0] == 'alt':
        t = v.a[1][0].a[0]
        if not t.startswith('conv:'):
            return C(1 if t == T else 0)
    return A('holds', v, S(T))


def visit(it, f, args, st, fr, sid, where):
    P_ = it.P
    rec = P_.rec_of_type(f['params'][1]['t'])
    if rec is None or len(args) != 2:
        it.note('visit')
        return None
    vr = None
    for b in P_.bases_of(rec['i']):
        if P_.records[b]['bname'] == 'std::variant':
            vr = P_.records[b]
    if vr is None:
        return None
    v = it.load(st, args[1])
    b, p = it.addr(args[1])
    out = []
    cur = [st]
    alts = [t['t'] for t in vr['targs']]
    lv = P_.tk(f['params'][1]['t'])
    fv = it.load(st, args[0])
    for n, t in enumerate(alts):
        T = P_.tname(t)
        nxt = []
        for s in cur:
            if n == len(alts) - 1:
                rs = [(s, True)]
                c = holds(it, v, T)
                if isc(c):
                    rs = [(s, bool(c.a[0]))]
                elif c not in s.facts:
                    s = s.copy()
                    s.facts[c] = True
                    it.event(s, 'F', '', c, (TRUE,), where, None, fr)
                    rs = [(s, True)]
            else:
                rs = it.truth(s, holds(it, v, T), where, fr)
            for s2, ok in rs:
                if not ok:
                    nxt.append(s2)
                    continue
                ap = P(b, p + (('alt', S(T)),))
                for s3, r in it.invoke_value(fv, args[0], [ap], s2, fr, (sid, n), where, [t], refs=True):
                    out.append((s3, r))
        cur = nxt
    return out


def whole_type(it, st, c, rec):
    """the container behind the pointer has the very type of the one that is made of its elements"""
    f = c.a[1][-1] if c.k == 'p' and c.a[1] else None
    for r in it.P.records.values() if isinstance(it.P.records, dict) else it.P.records:
        for x in (r or {}).get('fields', ()):
            if x['id'] == f:
                q = it.P.rec_of_type(x['t']) if it.P.isrec(x['t']) else None
                return q is not None and q['i'] == rec['i']
    return False


def shift_front(it, args, st, where, fr):
    """std::move(begin + n, end, begin) within one container"""
    c = itf(args[0], 'c')
    if itf(args[1], 'c') is not c or itf(args[2], 'c') is not c or itf(args[2], 'i') is not C(0):
        return None
    v = it.load(st, c)
    if itf(args[1], 'i') is not it.size(v):
        return None
    lo = itf(args[0], 'i')
    st = st.copy()
    it.store(st, c, A('shifted', v, lo), where, fr)
    return ret(st, mkit(c, it.arith('-', it.size(v), lo)))


def kept_of(it, v):
    """number of elements of a shifted container that still mean something"""
    return it.arith('-', it.size(v), v.a[1][1])


def without_front(it, v):
    lo = v.a[1][1]
    return v.a[1][0] if lo is C(0) else A('erase', v.a[1][0], A('itx', C(0)), A('itx', lo))


def algo(it, f, bn, args, st, fr, sid, where):
    """search algorithms over abstract sequences: one generic element"""
    short = f['short']
    st = st.copy()
    if not (args and isit(args[0])):
        it.event(st, 'algo', bn, None, tuple(args), where, None, fr)
        return None
    c, lo = itf(args[0], 'c'), itf(args[0], 'i')
    hi = itf(args[1], 'i')
    cv = it.load(st, c)
    pred = args[2] if len(args) > 2 else None
    if pred is not None and pred.k == 'p':
        pred = it.load(st, pred)
    full = lo is C(0) and hi is it.size(cv)
    # evaluate the predicate on a generic element to expose its meaning
    lv = mk('lv', ('algo', sid, fr.fid), ('idx',), 1)
    el = elem_ptr(it, c, lv)
    pv, paths = None, []
    if short in ('find', 'remove'):
        pv = it.mkeq(it.load(st, el), pred)
    elif pred is not None:
        try:
            rs = it.invoke_value(pred, None, [el], st.copy(), fr, (sid, 'p'), where)
            if rs and all(x[0].exc is None for x in rs):
                vals = {x[1] for x in rs}
                pv = vals.pop() if len(vals) == 1 else A('predset', *sorted(vals, key=lambda x: x.n))
                paths = [(x[1], dict(x[0].facts)) for x in rs]
        except Exception:
            pv = None
    pv = pv if pv is not None else A('pred?')
    desc = A(short, cv, C(1 if full else 0), lv, pv)
    it.preds[desc] = (el, paths)
    it.event(st, 'algo', bn, c, (desc, args[0], args[1]), where, None, fr)
    if short in ('any_of', 'all_of', 'none_of'):
        return ret(st, desc)
    if short in ('find_if', 'find', 'find_if_not'):
        # either end or an element satisfying the predicate
        out = []
        found = A('found', desc)
        for s, ok in it.truth(st, found, where, fr):
            if ok:
                idx = A('foundidx', desc)
                out.append((s, mkit(c, idx)))
                neq = it.mkeq(idx, hi)
                s.facts[neq] = False
            else:
                out.append((s, mkit(c, hi)))
        return out
    if short in ('remove_if', 'remove', 'partition', 'stable_partition'):
        idx = A('keptend', desc)
        it.store(st, c, A('removed', cv, desc), where, fr)
        return ret(st, mkit(c, idx))
    if short == 'count_if':
        return ret(st, A('countif', desc))
    return None

"""Lenses against what they should mean: view, set and over as path-wise equal abstract results."""
from engine import kit
from engine.interp import *
from engine.pairs import *
from checks.derive import rewrite, untouched

CONT = ('W::Mut', 'W::MutVec', 'W::Map', 'W::Vec', 'W::Table')


def keys(v):
    """the term whose set of keys a container value has"""
    while True:
        if v.k == 'r' and v.a[1] is not None:
            v = v.a[1]
        elif v.k == 'mv':
            v = v.a[0]
        else:
            return v


class Lenses:
    def __init__(self, ctx, flags=(), std='c++20', witness='lenses.cpp'):
        self.ctx = ctx
        self.noexc = '-fno-exceptions' in flags
        self.P = kit.export(witness, flags=flags, std=std)
        self.it = Interp(self.P)
        self.it.hook = self.hook
        self.it.keeps_args = lambda f: False

    def where(self, f):
        return self.P.loc(f.get('loc'))

    # the meaning of the containers' members
    def hook(self, it, f, this, args, st, fr, where):
        rn = f.get('rname', '')
        base = rn.split('<')[0]
        if base not in CONT or this is None:
            return None
        short = f['short']
        if short not in ('at', 'set', 'insert', 'count', 'size', 'operator[]'):
            return None
        st = st.copy()
        v = it.load(st, this)
        if has_mv_shallow(v):
            it.event(st, 'usemoved', f['bname'], this, (v,), where, None, fr)
        if short == 'size':
            return [(st, A('size', keys(v)))]
        def value(i):
            t = f['params'][i]['t']
            return it.take(st, args[i], t) if it.P.isref(t) else args[i]
        if short == 'insert':
            p = value(0)
            if p.k == 'mv':
                it.event(st, 'usemoved', f['bname'], this, (p,), where, None, fr)
            if f.get('rq'):
                it.write(st, it.addr(this), it.moved(v), quiet=True)
            return [(st, A('insert', v, p))]
        k = value(0)
        if k.k == 'mv':
            it.event(st, 'usemoved', f['bname'], this, (k,), where, None, fr)
        vec = base in ('W::Vec', 'W::MutVec')
        has = A('<', k, A('size', keys(v))) if vec else A('has', keys(v), k)
        if short == 'count':
            return [(s, C(1 if ok else 0)) for s, ok in it.truth(st, has, where, fr)]
        b, p = it.addr(this)
        slot = P(b, p + (('i', k),))
        out = []
        for s, ok in it.truth(st, has, where, fr):
            if ok:
                if short == 'set':
                    x = value(1)
                    if x.k == 'mv':
                        it.event(s, 'usemoved', f['bname'], this, (x,), where, None, fr)
                    nv = it.setpath(v, (('i', k),), x)
                    if f.get('rq'):
                        it.write(s, it.addr(this), it.moved(v), quiet=True)
                    out.append((s, nv))
                else:
                    out.append((s, slot))
                continue
            s = s.copy()
            if short == 'at':
                it.event(s, 'throw', 'std::out_of_range', this, (k,), where, None, fr)
                s.exc = A('exc', S('std::out_of_range'))
                out.append((s, VOID))
            elif short == 'set':
                it.event(s, 'grow' if not vec else 'oob', f['bname'], this, (k,), where, None, fr)
                out.append((s, A('grown', v, k, value(1))))
            else:
                it.event(s, 'grow' if not vec else 'oob', f['bname'], this, (k,), where, None, fr)
                out.append((s, slot))
        return out


def known(st, v):
    """emptiness of an optional: True, False or None"""
    if isc(v):
        return bool(v.a[0])
    if v.k == 'a' and v.a[0] == 'some':
        return True
    if v.k == 'r' and v.a[0] is None and v.a[1] is not None:
        return known(st, v.a[1])
    return st.facts.get(v)


def optlike(v):
    return v.k == 'a' and v.a[0] == 'some' or v.k == 'r' and v.a[0] is None and set(dict(v.a[2])) == {'val'}


def same(it, st, a, b, d=0):
    """equal values given what the path knows"""
    if a is b:
        return True
    if d > 24:
        return False
    if optlike(a) or optlike(b):
        ka, kb = known(st, a), known(st, b)
        if ka is True and kb is True:
            return same(it, st, it.field(a, 'val'), it.field(b, 'val'), d + 1)
    if a.k == 'r' or b.k == 'r':
        da = dict(a.a[2]) if a.k == 'r' else {}
        db = dict(b.a[2]) if b.k == 'r' else {}
        ra = a.a[1] if a.k == 'r' else a
        rb = b.a[1] if b.k == 'r' else b
        ks = list(da) + [k for k in db if k not in da]
        if ra is not None and rb is not None and not same(it, st, ra, rb, d + 1):
            return False
        return bool(ks or ra is not None and rb is not None) and all(same(it, st, it.field(a, k), it.field(b, k), d + 1) for k in ks)
    ka, kb = known(st, a), known(st, b)
    if ka is False and kb is False and not (isc(a) and isc(b)):
        return True
    if a.k == 'a' and a.a[0] == 'alt' or b.k == 'a' and b.a[0] == 'alt':
        x, y = (a, b) if a.k == 'a' and a.a[0] == 'alt' else (b, a)
        T = x.a[1][0]
        if y.k == 'a' and y.a[0] == 'alt':
            return y.a[1][0] is T and same(it, st, x.a[1][1], y.a[1][1], d + 1)
        return st.facts.get(A('holds', y, T)) is True and same(it, st, x.a[1][1], it.field(y, ('alt', T)), d + 1)
    if a.k == b.k == 'a' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        return all(isinstance(x, V) and isinstance(y, V) and same(it, st, x, y, d + 1) for x, y in zip(a.a[1], b.a[1]))
    if a.k == b.k == 'f' and a.a[1] == b.a[1]:
        return same(it, st, a.a[0], b.a[0], d + 1)
    return False


def value_of(it, f, st, v):
    return it.load(st, v) if it.P.isref(f['ret']) else v


def rule_view_keeps(ctx, ls):
    return rule_lens(_Only(ctx), ls, 'a_', ('view',)) + rule_lens(_Only(ctx), ls, 'b_', ('view',))


class _Only:
    """only the obligations about what is left alone"""
    def __init__(self, ctx):
        object.__setattr__(self, 'ctx', ctx)

    def ob(self, rule, *a, **k):
        return self.ctx.ob(rule, *a, **k) if rule == 'lens-keeps-arguments' else a[1]

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def __setattr__(self, n, v):
        setattr(self.ctx, n, v)


def rule_lens(ctx, ls, prefix, ops=('view', 'set', 'over')):
    """every use of every lens gives what its plain-code oracle gives, on every path"""
    it, P_ = ls.it, ls.P
    allf = witness_fns(P_, '')
    n = 0
    for name, f in sorted(allf.items()):
        if not (name.startswith(prefix[:2]) and name[2:].split('_', 1)[-1].startswith(prefix[2:])):
            continue
        op, rest = name[2:].split('_', 1)
        lens, cat = rest.rsplit('_', 1)
        if op not in ops:
            continue
        n += 1
        view, sett = allf['oview_' + lens], allf['oset_' + lens]
        rs = run_fn(it, f)
        ctx.paths += len(rs)
        what = '%s through %s (%s)' % (op, lens, {'c': 'const', 'l': 'lvalue', 'r': 'moved'}[cat[0]] + ' whole' + (
            ', %s part' % {'c': 'const', 'l': 'lvalue', 'r': 'moved'}[cat[1]] if len(cat) > 1 else ''))
        args, mem = args_of(P_, f)
        for st, v in rs:
            tr = None
            ev = st.events()
            site = next((e.where for e in ev if e.where.startswith(kit.REPO)), ls.where(f))
            tr = kit.trace_lines(it, st)
            if not ctx.ob('lens-no-failure', what, st.exc is None, 'an exception escapes', next((e.where for e in ev if e.kind == 'throw'), site), tr):
                continue
            badk = ('oob', 'nullderef', 'maybenullderef', 'grow')
            if ls.noexc:
                badk += ('throw',)
            bad = [e for e in ev if e.kind in badk]
            ctx.ob('lens-guarded-access', what, not bad, '%s on %s' % (bad[0].kind, bad[0].name) if bad else '',
                   bad[0].where if bad else '', tr)
            um = [e for e in ev if e.kind == 'usemoved' and (
                e.name.rsplit('::', 1)[0] in CONT or 'operator()' in e.name)]
            ctx.ob('lens-no-moved-values', what, not um, 'a value is used after being moved away by %s' % (um[0].name if um else ''),
                   um[0].where if um else '', tr)
            # arguments that are not handed over stay as they were
            for i, p in enumerate(f['params']):
                b = ('o', 'arg%d' % i)
                if P_.isref(p['t']) and P_.tk(p['t']) != 'rref' and b in st.mem:
                    ok = same(it, st, st.mem[b], S('arg%d' % i)) or 'Fn<' in P_.tname(p['t'])
                    ctx.ob('lens-keeps-arguments', what, ok, 'argument %d is changed to %s' % (i, show(st.mem[b], 6)), site, tr)
            got = value_of(it, f, st, v)
            # --- the oracle under the same assumptions
            st0 = St()
            st0.facts.update(st.facts)
            st0.mem.update(mem)
            if op == 'view':
                ors = [(s, value_of(it, view, s, x)) for s, x in run_fn(it, view, st0, [args[0]] + args[1:])]
            elif op == 'set':
                ors = [(s, value_of(it, sett, s, x)) for s, x in run_fn(it, sett, st0, args)]
            else:
                calls = [e for e in ev if e.kind == 'call' and e.name.startswith('W::Fn') and e.name.endswith('operator()')]
                ctx.ob('lens-over-once', what, len(calls) == 1, 'the function is called %d times' % len(calls), site, tr)
                if len(calls) != 1:
                    continue
                ors = []
                for s, x in run_fn(it, view, st0, [args[0]] + args[2:]):
                    x = value_of(it, view, s, x)
                    arg = calls[0].vals[-1]
                    ctx.ob('lens-over-focus', what, same(it, s, arg, x), 'the function is given %s, the part is %s' % (
                        show(arg, 7), show(x, 7)), calls[0].where, tr)
                    s = s.copy()
                    # the function's result: whatever this path learned about it
                    s.mem[('o', 'fres')] = calls[0].res
                    for s2, y in run_fn(it, sett, s, [args[0], P(('o', 'fres'))] + args[2:]):
                        ors.append((s2, value_of(it, sett, s2, y)))
            if not ors:
                raise kit.Broken('no oracle path for ' + what)
            for s, want in ors:
                if s.exc is not None:
                    raise kit.Broken('the oracle of %s fails' % what)
                s = s.copy()
                s.facts.update(st.facts)
                ctx.ob('lens-' + op, what, same(it, s, got, want), 'gives %s, expected %s' % (show(got, 9), show(want, 9)), site, tr)
    ctx.absorb(it)
    return n


def rule_keyed(ctx, ls):
    """focusing a reader or cursor by key, member or lens: its value and what a write leaves"""
    it, P_ = ls.it, ls.P
    it.opaque = lambda f: f['short'] == 'operator()' and f.get('rname', '').endswith('detail::signal')
    it.keeps_args = it.opaque
    n = 0
    for kind in ('kr_', 'kc_'):
        orac = witness_fns(P_, 'o' + kind)
        for name, f in sorted(witness_fns(P_, kind).items()):
            n += 1
            what = '%s focused by %s' % ({'kr_': 'reader', 'kc_': 'cursor'}[kind], name)
            rs = run_fn(it, f)
            ctx.paths += len(rs)
            for st, h in rs:
                tr = kit.trace_lines(it, st)
                site = next((e.where for e in st.events() if e.where.startswith(kit.REPO)), ls.where(f))
                if not ctx.ob('focus-no-failure', what, st.exc is None, 'an exception escapes', site, tr):
                    continue
                ptr, rec = node_of(it, st, h)
                if not ctx.ob('focus-node', what, ptr is not None, 'the handle refers to no node made from the source', site, tr):
                    continue
                st0 = St()
                st0.facts.update(st.facts)
                for acc in ('current', 'last'):
                    got = accessor(it, st, ptr, rec, acc)
                    for s, w in run_fn(it, orac[name], st0):
                        w = value_of(it, orac[name], s, w)
                        s = s.copy()
                        s.facts.update(st.facts)
                        ctx.ob('focus-value', what, got is not None and same(it, s, got, w), 'the value is %s, expected %s' % (
                            show(got, 8) if got is not None else 'ambiguous', show(w, 8)), site, tr)
    orac = witness_fns(P_, 'os_')
    for name, f in sorted(witness_fns(P_, 'kw_').items()):
        n += 1
        what = 'write through %s' % name
        rs = run_fn(it, f)
        ctx.paths += len(rs)
        for st, _ in rs:
            tr = kit.trace_lines(it, st)
            ups = [e for e in st.events() if e.kind == 'vcall' and e.name.endswith('::send_up')]
            site = ups[0].where if ups else ls.where(f)
            if not ctx.ob('focus-write', what, st.exc is None and len(ups) == 1, '%d writes reach the source' % len(ups), site, tr):
                continue
            st0 = St()
            st0.facts.update((rewrite(k, untouched), v) for k, v in st.facts.items())
            for s, w in run_fn(it, orac[name], st0):
                w = value_of(it, orac[name], s, w)
                got = ups[0].vals[1]
                ctx.ob('focus-write', what, same(it, s, rewrite(got, untouched), rewrite(w, untouched)),
                       'the source receives %s, expected %s' % (show(got, 8), show(w, 8)), site, tr)
    ctx.absorb(it)
    return n


SHAPES = r'''
#include <lager/cursor.hpp>
#include <lager/lens.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/lenses/variant.hpp>
#include <lager/reader.hpp>
#include <map>
#include <optional>
#include <variant>
#include <vector>
namespace T {
namespace L = lager::lenses;
struct I { int x; bool operator==(const I& o) const { return x == o.x; } };
struct W { I i; std::optional<I> o; std::map<int, I> m; std::vector<I> v; std::variant<I, double> a; bool operator==(const W& w) const { return i == w.i; } };
template <class X> using opt = std::optional<X>;
template <class Lens, class Whole> using part = std::decay_t<decltype(lager::view(std::declval<Lens>(), std::declval<const Whole&>()))>;
template <class Lens, class Whole> using whole = std::decay_t<decltype(lager::set(std::declval<Lens>(), std::declval<const Whole&>(), std::declval<part<Lens, Whole>>()))>;
template <class R> using value = std::decay_t<decltype(std::declval<R>().make().get())>;
template <class A, class B> constexpr bool same = std::is_same_v<A, B>;
inline auto ai = L::attr(&W::i); inline auto ao = L::attr(&W::o); inline auto am = L::attr(&W::m); inline auto ax = L::attr(&I::x);
using AI = decltype(ai); using AO = decltype(ao); using AM = decltype(am);
}
using namespace T;
'''


def rule_shapes(ctx):
    """what a lens over possibly absent parts can say: how many reasons for being absent its type keeps apart"""
    from checks import typed
    H = kit.REPO + '/lager/lenses/'
    P = []

    def lens(name, expr, w, p, f):
        P.append(('yes', '%s views %s as %s' % (name, w, p), 'same<part<decltype(%s), %s>, %s>' % (expr, w, p), H + f))
        P.append(('yes', '%s writes %s back' % (name, w), 'same<whole<decltype(%s), %s>, %s>' % (expr, w, w), H + f))
    lens('map_opt of a part', 'L::map_opt(ai)', 'opt<W>', 'opt<I>', 'optional.hpp')
    lens('map_opt of a part that may be absent', 'L::map_opt(ao)', 'opt<W>', 'opt<opt<I>>', 'optional.hpp')
    lens('bind_opt of a part that may be absent', 'L::bind_opt(ao)', 'opt<W>', 'opt<I>', 'optional.hpp')
    lens('with_opt of a part', 'L::with_opt(ai)', 'opt<W>', 'opt<I>', 'optional.hpp')
    lens('with_opt of a part that may be absent', 'L::with_opt(ao)', 'opt<W>', 'opt<I>', 'optional.hpp')
    lens('at of a map', 'L::at(1)', 'std::map<int, I>', 'opt<I>', 'at.hpp')
    lens('at of a vector', 'L::at(1)', 'std::vector<I>', 'opt<I>', 'at.hpp')
    lens('at of a map of optionals', 'L::at(1)', 'std::map<int, opt<I>>', 'opt<opt<I>>', 'at.hpp')
    lens('at_or of a map', 'L::at_or(1)', 'std::map<int, I>', 'I', 'at_or.hpp')
    lens('at_or with a default', 'L::at_or(1, I{})', 'std::map<int, I>', 'I', 'at_or.hpp')
    lens('alternative', 'L::alternative<I>', 'std::variant<I, double>', 'opt<I>', 'variant.hpp')
    lens('first', 'L::first', 'std::pair<int, double>', 'int', 'tuple.hpp')
    lens('second', 'L::second', 'std::pair<int, double>', 'double', 'tuple.hpp')
    lens('element', 'L::element<2>', 'std::tuple<int, double, char>', 'char', 'tuple.hpp')
    P.append(('yes', 'value_or views opt<I> as I', 'same<part<decltype(L::value_or(I{})), opt<I>>, I>', H + 'optional.hpp'))
    P.append(('yes', 'or_default views opt<I> as I', 'same<part<decltype(L::or_default), opt<I>>, I>', H + 'optional.hpp'))
    P.append(('yes', 'force_opt views I as opt<I>', 'same<part<decltype(L::force_opt), I>, opt<I>>', H + 'optional.hpp'))
    S = kit.REPO + '/lager/detail/smart_lens.hpp'
    for h in ('reader', 'cursor'):
        for w, k, p in (('W', '&W::i', 'I'), ('W', '&W::o', 'opt<I>'), ('opt<W>', '&W::i', 'opt<I>'), ('opt<W>', '&W::o', 'opt<I>'),
                        ('std::map<int, I>', '1', 'opt<I>'), ('opt<std::map<int, I>>', '1', 'opt<I>'), ('std::vector<I>', '1u', 'opt<I>'),
                        ('opt<std::vector<I>>', '1u', 'opt<I>'), ('W', 'ai', 'I'), ('opt<I>', 'L::or_default', 'I'),
                        ('opt<I>', 'L::value_or(I{})', 'I'), ('opt<W>', 'L::map_opt(ao)', 'opt<opt<I>>')):
            P.append(('yes', '%s<%s>[%s] holds %s' % (h, w, k, p), 'same<value<decltype(std::declval<lager::%s<%s>>()[%s])>, %s>' % (h, w, k, p), S))
    typed.probes(ctx, 'lens-shape', SHAPES, P)

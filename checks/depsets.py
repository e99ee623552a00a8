"""Dependency sets: lookups after any construction, conversion or merge, against the object supplied."""
from engine import kit
from engine.interp import *
from engine.pairs import witness_fns, run_fn, args_of
from checks.lenses import same

ERR = 'lager::missing_dependency_error'


class Depsets:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = kit.export('deps.cpp', namespaces=['boost', '_hana'])
        self.it = Interp(self.P)


def outcome(it, f, st, v):
    if st.exc is not None:
        return ('throws', exc_name(st))
    return ('value', v)


def exc_name(st):
    for e in reversed(st.events()):
        if e.kind == 'throw':
            return e.name
    return show(st.exc, 4)


def lastrepo(st, d):
    ws = [e.where for e in st.events() if e.where.startswith(kit.REPO)]
    return ws[-1] if ws else d


def rule_get(ctx, g):
    it, P_ = g.it, g.P
    orac = witness_fns(P_, 'o_')
    fs = witness_fns(P_, 'g_')
    if len(fs) < 60:
        raise kit.Broken('only %d dependency lookups were found' % len(fs))
    for name, f in sorted(fs.items()):
        what = name.replace('_', ' ')
        rs = run_fn(it, f)
        ctx.paths += len(rs)
        if not rs:
            raise kit.Broken('no path through ' + name)
        for st, v in rs:
            tr = kit.trace_lines(it, st)
            site = lastrepo(st, P_.loc(f.get('loc')))
            st0 = St()
            st0.facts.update(st.facts)
            ors = run_fn(it, orac[name], st0)
            if not ors:
                raise kit.Broken('no oracle path for ' + name)
            calls = [e for e in st.events() if e.kind == 'call' and e.name.startswith('W::Fn')]
            for s, w in ors:
                nc = len([e for e in s.events() if e.kind == 'call' and e.name.startswith('W::Fn')])
                ctx.ob('function-asked-each-time', what, len(calls) == nc, 'the function is called %d times, expected %d' % (len(calls), nc), site, tr)
                s = s.copy()
                s.facts.update(st.facts)
                if st.exc is not None or s.exc is not None:
                    a, b = (exc_name(x) if x.exc is not None else None for x in (st, s))
                    ctx.ob('missing-is-reported', what, a == b, 'gives %s, expected %s' % (
                        'exception ' + a if a else show(v, 6), 'exception ' + b if b else show(w, 6)), site, tr)
                    continue
                rule = 'presence' if name.startswith('has') else 'same-object' if P_.isref(orac[name]['ret']) else 'lookup'
                if rule == 'presence':
                    for s1, x in it.truth(s, v):
                        for s2, y in it.truth(s1, w):
                            ctx.ob(rule, what, x == y, 'is reported %s' % ('present' if x else 'absent'), site, tr)
                    continue
                if rule == 'same-object':
                    ctx.ob(rule, what, v is w, 'gives %s, expected %s' % (show(v, 6), show(w, 6)), site, tr)
                    continue
                ctx.ob(rule, what, same(it, s, v, w), 'gives %s, expected %s' % (show(v, 8), show(w, 8)), site, tr)
    for name, f in sorted(witness_fns(P_, 'x_').items()):
        rs = run_fn(it, f)
        ctx.paths += len(rs)
        for st, v in rs:
            ctx.ob('missing-is-reported', name.replace('_', ' '), st.exc is not None and exc_name(st).startswith(ERR),
                   'a missing optional dependency gives %s' % (show(v, 6) if st.exc is None else exc_name(st)),
                   lastrepo(st, P_.loc(f.get('loc'))), kit.trace_lines(it, st))
    ctx.absorb(it)


PRE = r'''
#include <lager/deps.hpp>
#include <lager/context.hpp>
#include <string>
#include <utility>
namespace T {
struct K1 {}; struct K2 {}; struct X {}; struct Y {};
namespace dep = lager::dep;
using lager::deps;
template <class D, class K, class = void> struct gets : std::false_type {};
template <class D, class... A> using with_ = decltype(D::with(std::declval<A>()...));
}
using namespace T;
'''
# specification, key, required
SPECS = [('int', 'int', True), ('X&', 'X', True), ('dep::key<K1, int>', 'K1', True), ('dep::key<K2, X&>', 'K2', True),
         ('dep::fn<Y>', 'Y', True), ('dep::opt<int>', 'int', False), ('dep::opt<X&>', 'X', False), ('dep::opt<dep::key<K1, int>>', 'K1', False)]


def rule_missing(ctx):
    """a missing required dependency does not compile: exactly the conversions that have everything do"""
    import itertools
    from checks import typed
    W = kit.REPO + '/lager/deps.hpp'
    sets = [c for n in range(0, 4) for c in itertools.combinations(SPECS, n) if len({x[1] for x in c}) == len(c)]
    small = [c for c in sets if len(c) <= 2]
    D = lambda c: 'deps<%s>' % ', '.join(x[0] for x in c)
    req = lambda c: {x[1] for x in c if x[2]}
    P = []
    for s in sets:
        for t in small:
            if s is t:
                continue
            ok = req(t) <= req(s)
            P.append(('yes' if ok else 'no', '%s converts to %s' % (D(s), D(t)), 'std::is_convertible_v<%s, %s>' % (D(s), D(t)), W))
    one = [c for c in sets if len(c) == 1]
    for a in one:
        for b in one:
            for t in sets:
                if len(t) == 2 and len(req(t)) == 2:
                    ok = req(t) <= (req(a) | req(b))
                    P.append(('yes' if ok else 'no', '%s can be made of %s and %s' % (D(t), D(a), D(b)),
                              'std::is_constructible_v<%s, %s, %s>' % (D(t), D(a), D(b)), W))
    typed.probes(ctx, 'missing-required-does-not-compile', PRE, P)
    SAME = 'template <class A, class B> constexpr bool same = std::is_same_v<A, B>; '
    typed.accepts(ctx, 'merge-takes-the-kind-of-the-other', PRE, [
        ('a merged key that is a value here and a reference there', SAME + 'void f(deps<dep::key<K1, int>, int> a, deps<dep::key<K1, X&>> b) { '
         'static_assert(same<decltype(a.merge(b).get<K1>()), X&>); static_assert(same<decltype(a.merge(b).get<int>()), int>); }', None, W),
        ('a merged key that is a reference here and a value there', SAME + 'void f(deps<dep::key<K1, X&>> a, deps<dep::key<K1, int>, int> b) { '
         'static_assert(same<decltype(a.merge(b).get<K1>()), int>); static_assert(same<decltype(a.merge(b).get<int>()), int>); }', None, W),
        ('an object merged with a value of its type', SAME + 'void f(deps<X&> a, deps<X> b) { static_assert(same<decltype(a.merge(b).get<X>()), X>); '
         'static_assert(same<decltype(b.merge(a).get<X>()), X&>); }', None, W),
    ])
    typed.pairs(ctx, 'missing-required-does-not-compile', PRE, [
        ('looking up a key that is there', 'int f(deps<int, X&> d) { return d.get<int>(); }', 'float g(deps<int, X&> d) { return d.get<float>(); }', W),
        ('looking up a value by its key', 'int f(deps<dep::key<K1, int>> d) { return d.get<K1>(); }', 'int g(deps<dep::key<K1, int>> d) { return d.get<int>(); }', W),
        ('asking for a key that may be there', 'bool f(deps<dep::opt<int>> d) { return d.has<int>(); }', 'bool g(deps<dep::opt<int>> d) { return d.has<float>(); }', W),
        ('giving a value for each dependency', 'auto f(X& x) { return deps<int, X&>::with(1, x); }', 'auto g(X& x) { return deps<int, X&>::with(1); }', W),
        ('two dependencies with different keys', 'deps<dep::key<K1, int>, int> f();', 'inline int g(deps<int, int> d) { return d.get<int>(); }', W),
        ('passing a subset on', 'void h(deps<int>); void f(deps<int, X&> d) { h(d); }', 'void k(deps<int, K1>); void g(deps<int, X&> d) { k(d); }', W),
        ('merging adds what the other has', 'deps<int, X&> f(deps<int> a, deps<X&> b) { return a.merge(b); }', 'deps<int, Y> g(deps<int> a, deps<X&> b) { return a.merge(b); }', W),
    ])

"""C34 Capabilities are enforced by the type system."""
from checks import typed
from engine.kit import REPO

PRE = r'''
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/sensor.hpp>
#include <lager/constant.hpp>
#include <lager/setter.hpp>
#include <lager/cursor.hpp>
#include <lager/reader.hpp>
#include <lager/writer.hpp>
#include <lager/commit.hpp>
#include <lager/with.hpp>
#include <lager/deps.hpp>
#include <lager/context.hpp>
#include <lager/effect.hpp>
#include <lager/future.hpp>
#include <lager/event_loop/manual.hpp>
#include <string>
#include <variant>
#include <functional>
namespace T {
template <template <class...> class Op, class V, class... A> struct det : std::false_type {};
template <class...> using vt = void;
template <class E, template <class...> class Op, class... A> struct detect_ : std::false_type {};
template <template <class...> class Op, class... A> struct detect_<vt<Op<A...>>, Op, A...> : std::true_type {};
template <template <class...> class Op, class... A> constexpr bool has = detect_<void, Op, A...>::value;
struct fn_t { template <class... X> int operator()(X&&...) const; };
struct vfn_t { template <class... X> void operator()(X&&...) const; };
template <class X> using val = std::decay_t<typename X::value_type>;
#define OP(name, ...) template <class X> using name = decltype(__VA_ARGS__)
#define OBJ std::declval<X&>()
OP(set_, OBJ.set(std::declval<val<X>>()));
OP(update_, OBJ.update(std::declval<fn_t>()));
OP(send_up_, OBJ.send_up(std::declval<val<X>>()));
OP(get_, OBJ.get());
OP(deref_, *OBJ);
OP(arrow_, OBJ.operator->());
OP(watch_, OBJ.watch(std::declval<vfn_t>()));
OP(bind_, OBJ.bind(std::declval<vfn_t>()));
OP(nudge_, OBJ.nudge());
OP(unbind_, OBJ.unbind());
OP(node_, OBJ.node());
OP(node__, OBJ.node_());
OP(nodem_, OBJ.node_);
OP(nodec_, std::declval<const X&>().node());
OP(noder_, std::declval<X>().node());
OP(roots_, OBJ.roots());
OP(conns_, OBJ.conns_);
OP(state__, OBJ.state_);
OP(storage__, OBJ.storage_);
OP(dispatcher__, OBJ.dispatcher_);
OP(loop__, OBJ.loop_);
OP(dispatch_int, OBJ.dispatch(1));
OP(thenl_, OBJ.then(std::declval<vfn_t>()));
OP(thenr_, std::declval<X>().then(std::declval<vfn_t>()));
OP(slots_, OBJ.empty());
OP(connect_, OBJ.connect(std::declval<vfn_t>()));
OP(add_, OBJ.add(OBJ));
OP(emit_, OBJ(std::declval<val<X>>()));
template <class R> constexpr bool reads = has<get_, R> && has<deref_, R> && has<arrow_, R> && has<watch_, R> && has<bind_, R> && has<nudge_, R> && has<unbind_, R>;
template <class R> constexpr bool const_view = std::is_same_v<std::remove_reference_t<decltype(std::declval<R&>().get())>, const val<R>>
    && std::is_same_v<std::remove_reference_t<decltype(*std::declval<R&>())>, const val<R>>
    && std::is_same_v<std::remove_pointer_t<decltype(std::declval<R&>().operator->())>, const val<R>>;
template <class R> constexpr bool writes = has<set_, R> || has<update_, R> || has<send_up_, R>;
template <class R> constexpr bool looks = has<get_, R> || has<deref_, R> || has<arrow_, R> || has<watch_, R> || has<bind_, R> || has<nudge_, R>;
template <class R> constexpr bool exposes = has<node_, R> || has<node__, R> || has<nodem_, R> || has<nodec_, R> || has<noder_, R>
    || has<roots_, R> || has<conns_, R> || has<slots_, R> || has<connect_, R> || has<add_, R> || has<emit_, R>;
struct A1 {}; struct A2 {}; struct A3 {};
using any12 = std::variant<A1, A2>;
struct red { int operator()(int m, int) const { return m; } };
inline int sense() { return 0; }
struct M { int a; float b; };
using R = lager::reader<int>; using W = lager::writer<int>; using C = lager::cursor<int>;
using S = lager::state<int>; using SA = lager::state<int, lager::automatic_tag>;
using K = lager::constant<int>; using N = lager::sensor<int>;
using St = lager::store<int, int>; using Std = lager::store<int, int, lager::deps<float>>;
using mapped = std::decay_t<decltype(std::declval<C&>().map(std::declval<fn_t>()).make())>;
using zoomed_r = std::decay_t<decltype(std::declval<lager::reader<M>&>()[&M::a].make())>;
using zoomed_w = std::decay_t<decltype(std::declval<lager::writer<M>&>()[&M::a].make())>;
using zoomed_c = std::decay_t<decltype(std::declval<lager::cursor<M>&>()[&M::a].make())>;
using with_cc = std::decay_t<decltype(lager::with(std::declval<C&>(), std::declval<S&>()).make())>;
using with_cr = std::decay_t<decltype(lager::with(std::declval<C&>(), std::declval<R&>()).make())>;
using with_cs = std::decay_t<decltype(lager::with(std::declval<C&>(), std::declval<N&>()).make())>;
using with_ck = std::decay_t<decltype(lager::with(std::declval<K&>(), std::declval<S&>()).make())>;
using with_st = std::decay_t<decltype(lager::with(std::declval<St&>(), std::declval<C&>()).make())>;
using with_cw = std::decay_t<decltype(lager::with(std::declval<C&>(), std::declval<W&>()).make())>;
using xform_r = std::decay_t<decltype(std::declval<C&>().xform(zug::map(std::declval<fn_t>())).make())>;
using filt_r = std::decay_t<decltype(std::declval<S&>().filter(std::declval<fn_t>()).make())>;
using setter_c = std::decay_t<decltype(std::declval<R&>().setter(std::declval<vfn_t>()))>;
}
using namespace T;
'''

READERS = ['R', 'K', 'N', 'St', 'Std', 'mapped', 'zoomed_r', 'with_cr', 'with_cs', 'with_ck', 'with_st', 'xform_r', 'filt_r']
WRITERS = ['W', 'zoomed_w', 'with_cw']
CURSORS = ['C', 'S', 'SA', 'zoomed_c', 'with_cc', 'setter_c']
NAMES = {'R': 'reader<int>', 'W': 'writer<int>', 'C': 'cursor<int>', 'S': 'state<int>', 'SA': 'state<int, automatic_tag>',
         'K': 'constant<int>', 'N': 'sensor<int>', 'St': 'store<int, int>', 'Std': 'store with dependencies',
         'mapped': 'a mapped cursor', 'zoomed_r': 'a part of a reader', 'zoomed_w': 'a part of a writer', 'zoomed_c': 'a part of a cursor',
         'with_cc': 'with(cursor, state)', 'with_cr': 'with(cursor, reader)', 'with_cs': 'with(cursor, sensor)',
         'with_ck': 'with(constant, state)', 'with_st': 'with(store, cursor)', 'with_cw': 'with(cursor, writer)',
         'xform_r': 'a transformed cursor', 'filt_r': 'a filtered state', 'setter_c': 'a reader with a setter'}
F = {'R': 'reader', 'W': 'writer', 'C': 'cursor', 'S': 'state', 'SA': 'state', 'K': 'constant', 'N': 'sensor', 'St': 'store', 'Std': 'store',
     'setter_c': 'setter'}


def w(x):
    return '%s/lager/%s.hpp' % (REPO, F.get(x, 'with'))


def run(ctx):
    P = []
    for r in READERS:
        n = NAMES[r]
        P += [('no', n + ' can be written', 'writes<%s>' % r, w(r)), ('yes', n + ' can be read and watched', 'reads<%s>' % r, w(r)),
              ('yes', 'the value seen through %s is const' % n, 'const_view<%s>' % r, w(r))]
    for r in WRITERS:
        n = NAMES[r]
        P += [('no', n + ' can be read or watched', 'looks<%s>' % r, w(r)), ('yes', n + ' can be written', 'has<set_, %s> && has<update_, %s>' % (r, r), w(r))]
    for r in CURSORS:
        n = NAMES[r]
        P += [('yes', n + ' can be read, watched and written', 'reads<%s> && has<set_, %s> && has<update_, %s>' % (r, r, r), w(r)),
              ('yes', 'the value seen through %s is const' % n, 'const_view<%s>' % r, w(r))]
    for r in READERS + WRITERS + CURSORS:
        P.append(('no', 'the node, callbacks or roots of %s can be reached' % NAMES[r], 'exposes<%s>' % r, w(r)))
    for a, b in [('R', 'C'), ('R', 'W'), ('W', 'R'), ('W', 'C'), ('K', 'C'), ('N', 'C'), ('K', 'W'), ('N', 'W'), ('St', 'C'), ('St', 'W'),
                 ('mapped', 'C'), ('with_cr', 'lager::cursor<std::tuple<int, int>>'), ('with_cr', 'lager::writer<std::tuple<int, int>>'),
                 ('with_cw', 'lager::cursor<std::tuple<int, int>>'), ('with_cw', 'lager::reader<std::tuple<int, int>>'),
                 ('zoomed_r', 'C'), ('zoomed_r', 'W'), ('zoomed_w', 'C'), ('zoomed_w', 'R'), ('xform_r', 'C')]:
        P.append(('no', '%s converts to %s' % (NAMES[a], NAMES.get(b, b)), 'std::is_convertible_v<%s, %s>' % (a, b), w(a)))
    for a, b in [('C', 'R'), ('C', 'W'), ('S', 'C'), ('S', 'R'), ('S', 'W'), ('N', 'R'), ('K', 'R'), ('St', 'R'), ('SA', 'C'), ('with_cc', 'lager::cursor<std::tuple<int, int>>'),
                 ('setter_c', 'C')]:
        P.append(('yes', '%s converts to %s' % (NAMES[a], NAMES.get(b, b)), 'std::is_convertible_v<%s&%s, %s>' % (a, '&' if a in ('S', 'SA', 'St') else '', b), w(a)))
    for x in ('S', 'SA', 'St', 'Std'):
        n = NAMES[x]
        P += [('no', n + ' can be copied', 'std::is_copy_constructible_v<%s>' % x, w(x)), ('no', n + ' can be copy-assigned', 'std::is_copy_assignable_v<%s>' % x, w(x)),
              ('yes', n + ' can be moved', 'std::is_move_constructible_v<%s> && std::is_move_assignable_v<%s>' % (x, x), w(x))]
    for x in ('S', 'SA', 'St'):
        for v in ('int', 'const int&', 'int&', 'int&&'):
            P.append(('no', '%s is replaced when assigned %s' % (NAMES[x], v), 'std::is_assignable_v<%s&, %s>' % (x, v), w(x)))
    for x in ('R', 'W', 'C'):
        P += [('yes', NAMES[x] + ' can be copied and assigned', 'std::is_copy_constructible_v<%s> && std::is_copy_assignable_v<%s>' % (x, x), w(x)),
              ('yes', NAMES[x] + ' can be empty', 'std::is_default_constructible_v<%s>' % x, w(x))]
    fu = REPO + '/lager/future.hpp'
    P += [('no', 'the shared state of a future can be reached', 'has<state__, lager::future> || has<state__, lager::promise>', fu),
          ('no', 'then() can be called on a future that is kept', 'has<thenl_, lager::future>', fu),
          ('yes', 'then() can be called on a future that is given up', 'has<thenr_, lager::future>', fu),
          ('no', 'a promise can be made from nothing', 'std::is_default_constructible_v<lager::promise>', fu),
          ('no', 'a future can be made from a raw shared state', 'std::is_constructible_v<lager::future, std::shared_ptr<lager::detail::promise_state>>', fu),
          ('no', 'a promise can be made from a raw shared state', 'std::is_constructible_v<lager::promise, std::shared_ptr<lager::detail::promise_state>>', fu)]
    d = REPO + '/lager/deps.hpp'
    dd = lambda *x: 'lager::deps<%s>' % ', '.join(x)
    P += [('no', 'the storage of dependencies can be reached', 'has<storage__, %s>' % dd('int', 'float'), d),
          ('yes', 'dependencies convert to fewer', 'std::is_convertible_v<%s, %s>' % (dd('int', 'float'), dd('float')), d),
          ('no', 'dependencies convert to more', 'std::is_convertible_v<%s, %s>' % (dd('int'), dd('int', 'float')), d),
          ('no', 'dependencies convert to different ones', 'std::is_convertible_v<%s, %s>' % (dd('int'), dd('float')), d),
          ('no', 'an optional dependency converts to a required one', 'std::is_convertible_v<%s, %s>' % (dd('lager::dep::opt<int>'), dd('int')), d),
          ('yes', 'a required dependency converts to an optional one', 'std::is_convertible_v<%s, %s>' % (dd('int'), dd('lager::dep::opt<int>')), d),
          ('yes', 'an optional dependency may be missing', 'std::is_convertible_v<%s, %s>' % (dd('int'), dd('int', 'lager::dep::opt<float>')), d),
          ('no', 'a dependency with another key is accepted', 'std::is_convertible_v<%s, %s>' % (dd('lager::dep::key<A1, int>'), dd('lager::dep::key<A2, int>')), d)]
    c = REPO + '/lager/context.hpp'
    cx = lambda a, *x: 'lager::context<%s, lager::deps<%s>>' % (a, ', '.join(x))
    act = lambda *x: 'lager::actions<%s>' % ', '.join(x)
    P += [('no', 'the dispatcher or loop of a context can be replaced', 'has<dispatcher__, lager::context<int>> || has<loop__, lager::context<int>>', c),
          ('yes', 'a context of a variant converts to one of an alternative', 'std::is_convertible_v<%s, %s>' % (cx('any12'), cx('A1')), c),
          ('yes', 'a context of a variant converts to one of several alternatives', 'std::is_convertible_v<%s, %s>' % (cx('any12'), cx(act('A1', 'A2'))), c),
          ('no', 'a context of an alternative converts to one of the variant', 'std::is_convertible_v<%s, %s>' % (cx('A1'), cx('any12')), c),
          ('no', 'a context converts to more actions', 'std::is_convertible_v<%s, %s>' % (cx('A1'), cx(act('A1', 'A3'))), c),
          ('no', 'a context converts to unrelated actions', 'std::is_convertible_v<%s, %s>' % (cx('A1'), cx('A3')), c),
          ('no', 'a context without actions converts to one with actions', 'std::is_convertible_v<%s, %s>' % (cx('void'), cx('A1')), c),
          ('yes', 'a context converts to one that cannot dispatch', 'std::is_convertible_v<%s, %s>' % (cx('A1'), cx('void')), c),
          ('no', 'a context converts to one with more dependencies', 'std::is_convertible_v<%s, %s>' % (cx('A1'), cx('A1', 'int')), c),
          ('yes', 'a context converts to one with fewer dependencies', 'std::is_convertible_v<%s, %s>' % (cx('A1', 'int', 'float'), cx('A1', 'int')), c)]
    e = REPO + '/lager/effect.hpp'
    ef = lambda a, *x: 'lager::effect<%s, lager::deps<%s>>' % (a, ', '.join(x))
    P += [('yes', 'an effect of an alternative converts to one of the variant', 'std::is_convertible_v<%s, %s>' % (ef('A1'), ef('any12')), e),
          ('yes', 'an effect converts to one with more dependencies', 'std::is_convertible_v<%s, %s>' % (ef('A1'), ef('A1', 'int')), e)]
    typed.probes(ctx, 'capabilities', PRE, P)
    X = [
        ('committing a derived cursor', 'void f(S& s, N& n, K& k, St& t) { lager::commit(s, n, k, t); }', 'void g(C& c) { lager::commit(c); }', REPO + '/lager/commit.hpp'),
        ('committing a reader', None, 'void g(R& r) { lager::commit(r); }', REPO + '/lager/commit.hpp'),
        ('committing a writer', None, 'void g(W& r) { lager::commit(r); }', REPO + '/lager/commit.hpp'),
        ('committing an expression', None, 'void g(S& r) { lager::commit(r.map(fn_t{})); }', REPO + '/lager/commit.hpp'),
        ('committing a state together with a derived cursor', None, 'void g(S& s, C& r) { lager::commit(s, r); }', REPO + '/lager/commit.hpp'),
        ('a state made from a cursor', 'C f(S& s) { return s; }', 'S g(C& c) { return S{c}; }', w('S')),
        ('a cursor of another value type', 'void f(C& c) { lager::cursor<int> d = c; }', 'void g(C& c) { lager::cursor<std::string> d = c; }', w('C')),
        ('a reader of another value type', 'void f(R& c) { lager::reader<int> d = c; }', 'void g(R& c) { lager::reader<std::string> d = c; }', w('R')),
        ('a writer of another value type', 'void f(W& c) { lager::writer<int> d = c; }', 'void g(W& c) { lager::writer<std::string> d = c; }', w('W')),
        ('writing another value type', 'void f(C& c) { c.set(1); }', 'void g(C& c) { c.set(std::string{}); }', w('W')),
        ('assigning through a reader', 'int f(R& c) { return *c; }', 'void g(R& c) { *c = 1; }', w('R')),
        ('assigning through a cursor', 'int f(C& c) { return *c; }', 'void g(C& c) { *c = 1; }', w('C')),
        ('assigning a member through a cursor', 'int f(lager::cursor<M>& c) { return c->a; }', 'void g(lager::cursor<M>& c) { c->a = 1; }', w('C')),
        ('dispatching an action the store does not have', 'void f(lager::store<any12, int>& s) { s.dispatch(A1{}); s.dispatch(any12{}); }', 'void g(lager::store<any12, int>& s) { s.dispatch(A3{}); }', w('St')),
        ('dispatching an action the context does not have', 'void f(lager::context<%s> c) { c.dispatch(A1{}); }' % act('A1', 'A2'), 'void g(lager::context<%s> c) { c.dispatch(A3{}); }' % act('A1', 'A2'), c),
        ('dispatching without actions', 'void f(lager::context<void> c) { c.loop(); }', 'void g(lager::context<void> c) { c.dispatch(A3{}); }', c),
        ('getting a dependency that is not there', 'int f(%s x) { return x.get<int>(); }' % dd('int'), 'float g(%s x) { return x.get<float>(); }' % dd('int'), d),
        ('asking for a dependency that is not there', 'bool f(%s x) { return lager::has<int>(x); }' % dd('int'), 'bool g(%s x) { return lager::has<float>(x); }' % dd('int'), d),
        ('two dependencies with one key', 'auto f() { return %s::with(1, 2.f); }' % dd('int', 'float'), 'auto g() { return %s::with(1, 2); }' % dd('int', 'int'), d),
        ('too few values for the dependencies', None, 'auto g() { return %s::with(1); }' % dd('int', 'float'), d),
        ('an effect of the variant used for an alternative', 'void f(%s e) { %s x = e; }' % (ef('A1'), ef('any12')), 'void g(%s e) { %s x = e; }' % (ef('any12'), ef('A1')), e),
        ('an effect whose dependencies are missing', None, 'void g(%s e) { %s x = e; }' % (ef('A1', 'int'), ef('A1')), e),
        ('a result that drops actions', 'using r1 = lager::result<int, A1>; void f(r1 e) { lager::result<int, any12> x = e; }', 'using r2 = lager::result<int, any12>; void g(r2 e) { lager::result<int, A1> x = e; }', e),
        ('a result that drops dependencies', None, 'using r3 = lager::result<int, A1, lager::deps<int>>; void g(r3 e) { lager::result<int, A1> x = e; }', e),
    ]
    typed.pairs(ctx, 'rejected-uses', PRE, X)
    ctx.by_kind = 'type checker'

"""C36 Library code is safe to call through const and shared handles.

Type checker: every reading operation is accepted on a const object (and gives a value that cannot be written through);
dataflow: on every path of get/bind/nudge/set/update the node is only used where it is known to be there, a path exists
that reports an empty handle, and reading leaves handle and node as they were."""
from checks import handles, typed
from engine.kit import REPO

PRE = r'''
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/sensor.hpp>
#include <lager/constant.hpp>
#include <lager/setter.hpp>
#include <lager/cursor.hpp>
#include <lager/reader.hpp>
#include <lager/writer.hpp>
#include <lager/commit.hpp>
#include <lager/with.hpp>
#include <lager/deps.hpp>
#include <lager/context.hpp>
#include <lager/effect.hpp>
#include <lager/lenses.hpp>
#include <lager/lens.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/lenses/unbox.hpp>
#include <lager/lenses/variant.hpp>
#include <immer/box.hpp>
#include <map>
#include <string>
#include <vector>
namespace T {
struct M { int a; std::string s; bool operator==(const M&) const; };
struct act {};
template <class T> const T& c();
struct F { template <class... X> int operator()(X&&...) const; };
struct V { template <class... X> void operator()(X&&...) const; };
using R = lager::reader<M>; using W = lager::writer<M>; using C = lager::cursor<M>; using S = lager::state<M>;
using SA = lager::state<M, lager::automatic_tag>; using K = lager::constant<M>; using N = lager::sensor<M>; using St = lager::store<act, M>;
inline auto some_lens() { return lager::lenses::getset([](const M& m) { return m.a; }, [](M m, int x) { m.a = x; return m; }); }
}
using namespace T;
'''
CURSORS = ('C', 'S', 'SA')      # setters are added to readers; a cursor already has one
HPP = {'R': 'reader', 'W': 'writer', 'C': 'cursor', 'S': 'state', 'SA': 'state', 'K': 'constant', 'N': 'sensor', 'St': 'store'}
NAMES = {'R': 'reader', 'W': 'writer', 'C': 'cursor', 'S': 'state', 'SA': 'automatic state', 'K': 'constant', 'N': 'sensor', 'St': 'store'}
READS = [('getting the value', 'c<%s>().get()'), ('dereferencing', '*c<%s>()'), ('accessing a member', 'c<%s>()->a'),
         ('reading a part', 'lager::reader<int> r = c<%s>()[&M::a]; (void) r'), ('zooming', 'lager::reader<int> r = c<%s>().zoom(some_lens()); (void) r'),
         ('mapping', 'lager::reader<int> r = c<%s>().map(F{}); (void) r'), ('filtering', 'lager::reader<M> r = c<%s>().filter([](const M&) { return true; }); (void) r'),
         ('transforming', 'lager::reader<int> r = c<%s>().xform(zug::map(F{})); (void) r'),
         ('combining', 'auto r = lager::with(c<%s>(), c<lager::reader<int>>()).make(); (void) r'),
         ('adding a setter', 'lager::cursor<M> r = c<%s>().setter(V{}); (void) r'), ('making a handle from it', 'lager::reader<M> r = c<%s>(); (void) r')]
WRITES = [('writing a part', 'lager::writer<int> r = c<%s>()[&M::a]; (void) r'), ('zooming', 'lager::writer<int> r = c<%s>().zoom(some_lens()); (void) r'),
          ('transforming both ways', 'lager::writer<int> r = c<%s>().xform(zug::map([](const M& m) { return m.a; }), zug::map([](int x) { return M{x, {}}; })); (void) r'),
          ('making a writer from it', 'lager::writer<M> r = c<%s>(); (void) r')]
CURS = [('a part as a cursor', 'lager::cursor<int> r = c<%s>()[&M::a]; (void) r'), ('a zoomed cursor', 'lager::cursor<int> r = c<%s>().zoom(some_lens()); (void) r'),
        ('combining cursors', 'lager::cursor<std::tuple<M, int>> r = lager::with(c<%s>(), c<lager::cursor<int>>()); (void) r')]
D = 'lager::deps<int, std::reference_wrapper<float>, lager::dep::key<act, M>, lager::dep::opt<char>, lager::dep::fn<long>>'
OTHER = [
    ('getting a dependency', 'c<%s>().get<int>()' % D, 'deps'), ('getting a referenced dependency', 'c<%s>().get<float>()' % D, 'deps'),
    ('getting a keyed dependency', 'c<%s>().get<act>()' % D, 'deps'), ('getting an optional dependency', 'c<%s>().get<char>()' % D, 'deps'),
    ('getting a dependency from a function', 'c<%s>().get<long>()' % D, 'deps'), ('asking for a dependency', 'c<%s>().has<char>() && lager::has<int>(c<%s>())' % (D, D), 'deps'),
    ('getting with the free function', 'lager::get<int>(c<%s>())' % D, 'deps'), ('converting dependencies', 'lager::deps<int> d = c<%s>(); (void) d' % D, 'deps'),
    ('dispatching through a context', 'c<lager::context<act>>().dispatch(act{})', 'context'), ('the loop of a context', 'c<lager::context<act>>().loop().post([] {})', 'context'),
    ('a dependency of a context', 'c<lager::context<act, lager::deps<int>>>().get<int>()', 'context'), ('converting a context', 'lager::context<> d = c<lager::context<act>>(); (void) d', 'context'),
    ('running an effect', 'c<lager::effect<act>>()(c<lager::context<act>>())', 'effect'), ('testing an effect', 'lager::is_empty_effect(c<lager::effect<act>>())', 'effect'),
    ('composing effects', 'lager::effect<act> e = lager::sequence(c<lager::effect<act>>(), c<lager::effect<act>>()); (void) e', 'effect'),
    ('viewing through getset', 'lager::view(some_lens(), c<M>())', 'lenses'), ('setting through getset', 'lager::set(some_lens(), c<M>(), 3)', 'lenses'),
    ('updating through getset', 'lager::over(some_lens(), c<M>(), F{})', 'lenses'),
    ('viewing a member', 'lager::view(lager::lenses::attr(&M::a), c<M>())', 'lenses/attr'), ('setting a member', 'lager::set(lager::lenses::attr(&M::a), c<M>(), 3)', 'lenses/attr'),
    ('viewing an element', 'lager::view(lager::lenses::at(1), c<std::vector<int>>())', 'lenses/at'), ('viewing a key', 'lager::view(lager::lenses::at(1), c<std::map<int, int>>())', 'lenses/at'),
    ('viewing an element or default', 'lager::view(lager::lenses::at_or(1), c<std::vector<int>>())', 'lenses/at_or'),
    ('viewing a key or default', 'lager::view(lager::lenses::at_or(1, 7), c<std::map<int, int>>())', 'lenses/at_or'),
    ('viewing an optional', 'lager::view(lager::lenses::map_opt(some_lens()), c<std::optional<M>>())', 'lenses/optional'),
    ('viewing an optional result', 'lager::view(lager::lenses::with_opt(some_lens()), c<std::optional<M>>())', 'lenses/optional'),
    ('viewing an optional or value', 'lager::view(lager::lenses::value_or(3), c<std::optional<int>>())', 'lenses/optional'),
    ('viewing a tuple element', 'lager::view(lager::lenses::element<1>, c<std::tuple<int, M>>())', 'lenses/tuple'),
    ('viewing zipped', 'lager::view(lager::lenses::zip(some_lens(), some_lens()), c<std::tuple<M, M>>())', 'lenses/tuple'),
    ('viewing fanned', 'lager::view(lager::lenses::fan(some_lens(), some_lens()), c<M>())', 'lenses/tuple'),
    ('viewing unboxed', 'lager::view(lager::lenses::unbox, c<immer::box<M>>())', 'lenses/unbox'),
    ('viewing an alternative', 'lager::view(lager::lenses::alternative<int>, c<std::variant<int, M>>())', 'lenses/variant'),
    ('viewing through an erased lens', 'lager::view(c<lager::lens<M, int>>(), c<M>())', 'lens'), ('setting through an erased lens', 'lager::set(c<lager::lens<M, int>>(), c<M>(), 3)', 'lens'),
    ('a reader of a cursor', 'lager::reader<M> r = c<C>(); (void) r', 'reader'), ('committing', 'lager::commit(c<S>(), c<N>())', 'commit'),
    ('copying handles', 'R r = c<R>(); C k = c<C>(); W w = c<W>(); r = c<R>(); r = c<C>(); k = c<C>(); w = c<W>(); w = c<C>()', 'reader'),
]


def run(ctx):
    X = []
    for k in ('R', 'C', 'S', 'SA', 'K', 'N', 'St'):
        X += [('%s of a const %s' % (n, NAMES[k]), 'void f() { %s; }' % (u % k), None, '%s/lager/%s.hpp' % (REPO, HPP[k])) for n, u in READS
              if not (n == 'adding a setter' and k in CURSORS)]
    for k in ('W', 'C', 'S', 'SA'):
        X += [('%s of a const %s' % (n, NAMES[k]), 'void f() { %s; }' % (u % k), None, '%s/lager/%s.hpp' % (REPO, HPP[k])) for n, u in WRITES]
    for k in ('C', 'S', 'SA'):
        X += [('%s of a const %s' % (n, NAMES[k]), 'void f() { %s; }' % (u % k), None, '%s/lager/%s.hpp' % (REPO, HPP[k])) for n, u in CURS]
    X += [(n + ' (const)', 'void f() { %s; }' % u, None, '%s/lager/%s.hpp' % (REPO, h)) for n, u, h in OTHER]
    typed.accepts(ctx, 'const-use', PRE, X)
    h = handles.Handles(ctx)
    handles.rule_get_safe(ctx, h)
    handles.rule_get(ctx, h)

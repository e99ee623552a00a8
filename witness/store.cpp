// Stores of every tag combination over an opaque event loop and opaque reducers.
#include "first.hpp"
#include <optional>
#include <lager/store.hpp>
#include <lager/effect.hpp>
#include <lager/future.hpp>
#include "opaque.hpp"
namespace W {
using M  = Val<0>;   // model
using Ac = Val<1>;   // action
struct Loop
{
    Loop(const Loop&);
    Loop(Loop&&);
    template <typename F>
    void post(F&& f);
    template <typename F>
    void async(F&& f);
    void finish();
    void pause();
    void resume();
};
struct Dep
{
    Dep(const Dep&);
    Dep(Dep&&);
};
using Deps = lager::deps<Dep>;
using Plain = Fn<M, M, Ac>;
using Eff   = lager::effect<Ac>;
using EffD  = lager::effect<Ac, Deps>;
using WithEff  = Fn<std::pair<M, Eff>, M, Ac>;
using WithEffD = Fn<lager::result<M, Ac, Deps>, M, Ac>;
using Res = Fn<lager::result<M, Ac>, M, Ac>;
// an effect type that is not lager::effect
struct VoidEff { VoidEff(const VoidEff&); VoidEff(VoidEff&&); void operator()(const lager::context<Ac>&) const; };
using WithVoid = Fn<std::pair<M, VoidEff>, M, Ac>;
struct FutEff { FutEff(const FutEff&); FutEff(FutEff&&); lager::future operator()(const lager::context<Ac>&) const; };
using WithFut = Fn<std::pair<M, FutEff>, M, Ac>;

template <typename R, typename... En>
void stores(M m, Ac a, Loop l, R r, En... en)
{
    auto s1 = lager::make_store<Ac, lager::automatic_tag>(m, l, lager::with_reducer(r), en...);
    auto s2 = lager::make_store<Ac, lager::transactional_tag>(m, l, lager::with_reducer(r), en...);
    auto s3 = lager::make_store<Ac, lager::automatic_tag>(m, l, lager::with_reducer(r), lager::with_futures, en...);
    auto s4 = lager::make_store<Ac, lager::transactional_tag>(m, l, lager::with_reducer(r), lager::with_futures, en...);
    s1.dispatch(a);
    s2.dispatch(a);
    s3.dispatch(a);
    s4.dispatch(a);
}
void all(M m, Ac a, Loop l, Plain p, WithEff w, Res rs, WithVoid v, WithFut f, WithEffD d, Dep dep)
{
    stores(m, a, l, p);
    stores(m, a, l, w);
    stores(m, a, l, rs);
    stores(m, a, l, v);
    stores(m, a, l, f);
    stores(m, a, l, d, lager::with_deps(dep));
}

struct Peek : lager::detail::store_node_base<Ac, M>
{
    using base = lager::detail::store_node_base<Ac, M>;
    static const M& cur(base& b) { return static_cast<Peek&>(b).current(); }
    static const M& las(base& b) { return static_cast<Peek&>(b).last(); }
};
void peek(Peek::base& b) { Peek::cur(b); Peek::las(b); }
}

// Enhancers of stores: what reaches the next stage, against what should.
#include "first.hpp"
#include <functional>
#include <variant>
#include <lager/store.hpp>
#include <lager/extra/thunk.hpp>
#include <lager/debug/debugger.hpp>
#include "opaque.hpp"
namespace W {
using M  = Val<0>;
using Ac = Val<1>;
using R  = Fn<M, M, Ac>;
struct Loop { Loop(const Loop&); Loop(Loop&&); void post(std::function<void()>); void async(std::function<void()>); void finish(); void pause(); void resume(); };
struct DA { DA(const DA&); DA(DA&&); };
struct DB { DB(const DB&); DB(DB&&); };
struct DC { DC(const DC&); DC(DC&&); };
struct DE { DE(const DE&); DE(DE&&); };
struct tag_a {};
struct tag_b {};
struct tag_c {};
struct Done { Done(const Done&); Done(Done&&); };
// the next stage
struct Next
{
    Next(const Next&);
    Next(Next&&);
    template <typename A, typename Mo, typename Re, typename Lo, typename De, typename Ta>
    Done operator()(A, Mo&&, Re&&, Lo&&, De&&, Ta&&) const;
};
using D0 = lager::deps<>;
using D1 = lager::deps<DA, DE&>;
template <typename... Ts>
constexpr auto tags = boost::hana::make_set(boost::hana::type_c<Ts>...);
template <typename... Ts>
using Tags = std::decay_t<decltype(tags<Ts...>)>;
template <typename T>
using type_ = lager::type_<T>;
using lager::with_tags, lager::with_deps, lager::with_reducer, lager::with_futures;
using zug::comp;

#define ALL M m, R r, Loop& l, D1 d, Tags<tag_a> t
#define ENH(name, enh, o_reducer, o_deps, o_tags, ...) \
    Done d_##name(Next n, __VA_ARGS__) { return (enh)(n)(type_<Ac>{}, m, r, l, d, t); } \
    Done o_##name(Next n, __VA_ARGS__) { return n(type_<Ac>{}, m, o_reducer, l, o_deps, o_tags); } \
    Done d_##name##_moved(Next n, __VA_ARGS__) { return (enh)(n)(type_<Ac>{}, std::move(m), std::move(r), l, std::move(d), std::move(t)); } \
    Done o_##name##_moved(Next n, __VA_ARGS__) { return n(type_<Ac>{}, m, o_reducer, l, o_deps, o_tags); } \
    void d_##name##_twice(Next n, Next n2, __VA_ARGS__) { auto e = (enh); e(n)(type_<Ac>{}, m, r, l, d, t); auto e_n2 = e(n2); e_n2(type_<Ac>{}, m, r, l, d, t); e_n2(type_<Ac>{}, m, r, l, d, t); } \
    void o_##name##_twice(Next n, Next n2, __VA_ARGS__) { n(type_<Ac>{}, m, o_reducer, l, o_deps, o_tags); n2(type_<Ac>{}, m, o_reducer, l, o_deps, o_tags); n2(type_<Ac>{}, m, o_reducer, l, o_deps, o_tags); }
#define PLUS(...) d.merge(lager::make_deps(__VA_ARGS__))
ENH(identity, zug::identity, r, d, t, ALL)
ENH(tags_none, with_tags<>, r, d, t, ALL)
ENH(tags_one, with_tags<tag_b>, r, d, (tags<tag_a, tag_b>), ALL)
ENH(tags_two, (with_tags<tag_b, tag_c>), r, d, (tags<tag_a, tag_b, tag_c>), ALL)
ENH(tags_again, with_tags<tag_a>, r, d, (tags<tag_a>), ALL)
ENH(tags_after_tags, comp(with_tags<tag_b>, with_tags<tag_c>), r, d, (tags<tag_a, tag_b, tag_c>), ALL)
ENH(futures, with_futures, r, d, (tags<tag_a, lager::enable_futures_tag>), ALL)
ENH(reducer, with_reducer(q), q, d, t, ALL, R q)
ENH(reducer_other, with_reducer(q), q, d, t, ALL, Val<7> q)
ENH(deps_object, with_deps(std::ref(b)), r, PLUS(std::ref(b)), t, ALL, DB& b)
ENH(deps_value, with_deps(b), r, PLUS(b), t, ALL, DB b)
ENH(deps_two, with_deps(b, std::ref(c)), r, PLUS(b, std::ref(c)), t, ALL, DB b, DC& c)
ENH(deps_none, with_deps(), r, PLUS(), t, ALL)
ENH(tags_reducer, comp(with_tags<tag_b>, with_reducer(q)), q, d, (tags<tag_a, tag_b>), ALL, R q)
ENH(reducer_tags, comp(with_reducer(q), with_tags<tag_b>), q, d, (tags<tag_a, tag_b>), ALL, R q)
ENH(deps_reducer, comp(with_deps(b), with_reducer(q)), q, PLUS(b), t, ALL, DB b, R q)
ENH(reducer_deps, comp(with_reducer(q), with_deps(b)), q, PLUS(b), t, ALL, DB b, R q)
ENH(deps_tags, comp(with_deps(b), with_tags<tag_b>), r, PLUS(b), (tags<tag_a, tag_b>), ALL, DB b)
ENH(tags_deps, comp(with_tags<tag_b>, with_deps(b)), r, PLUS(b), (tags<tag_a, tag_b>), ALL, DB b)
ENH(futures_tags, comp(with_futures, with_tags<tag_b>), r, d, (tags<tag_a, tag_b, lager::enable_futures_tag>), ALL)
ENH(three, comp(with_deps(b), with_tags<tag_b>, with_reducer(q)), q, PLUS(b), (tags<tag_a, tag_b>), ALL, DB b, R q)
ENH(three_again, comp(with_reducer(q), with_deps(b), with_tags<tag_b>), q, PLUS(b), (tags<tag_a, tag_b>), ALL, DB b, R q)

// ---- thunks
using Eff   = lager::effect<Ac, D1>;
using Thunk = std::variant<Eff, Ac>;
using Res   = lager::result<M, Thunk, D1>;
using ER    = Fn<lager::result<M, Ac, D1>, M, Ac>;
using EP    = Fn<std::pair<M, lager::effect<Ac>>, M, Ac>;
// what the next stage makes of the reducer
struct Run
{
    Thunk a;
    template <typename A, typename Mo, typename Re, typename Lo, typename De, typename Ta>
    Res operator()(A, Mo&& m, Re&& r, Lo&&, De&&, Ta&&) const
    {
        static_assert(std::is_same_v<typename A::type, Thunk>, "the store takes thunks and actions");
        static_assert(lager::has_effect_v<std::decay_t<Re>, M, Thunk, D1>, "the store runs thunks as effects");
        return r(std::move(m), a);
    }
};
#define RUN(name, oracle_plain, oracle_eff, ...) \
    Res t_##name(Thunk a, M m, __VA_ARGS__, Loop& l, D1 d, Tags<tag_a> t) { return lager::with_thunk()(Run{a})(type_<Ac>{}, m, r, l, d, t); } \
    Res u_##name(Thunk a, M m, __VA_ARGS__, Loop& l, D1 d, Tags<tag_a> t) \
    { \
        if (std::holds_alternative<Eff>(a)) \
            return Res{m, std::get<Eff>(a)}; \
        auto act = std::get<Ac>(a); \
        oracle_plain; \
    }
RUN(plain, return (Res{r(m, act), lager::noop}), , R r)
RUN(effects, auto p = r(m, act); return (Res{p.first, p.second}), , ER r)
RUN(effects_fewer_deps, auto p = r(m, act); return (Res{p.first, p.second}), , EP r)
// the other components
struct Rest
{
    Next n;
    template <typename A, typename Mo, typename Re, typename Lo, typename De, typename Ta>
    Done operator()(A, Mo&& m, Re&&, Lo&& l, De&& d, Ta&& t) const { return n(type_<A>{}, LAGER_FWD(m), 0, LAGER_FWD(l), LAGER_FWD(d), LAGER_FWD(t)); }
};
Done d_thunk_rest(Next n, ALL) { return lager::with_thunk()(Rest{n})(type_<Ac>{}, m, r, l, d, t); }
Done o_thunk_rest(Next n, ALL) { return n(type_<type_<Thunk>>{}, m, 0, l, d, t); }
Done d_thunk_tags(Next n, ALL) { return comp(lager::with_thunk(), with_tags<tag_b>)(Rest{n})(type_<Ac>{}, m, r, l, d, t); }
Done o_thunk_tags(Next n, ALL) { return n(type_<type_<Thunk>>{}, m, 0, l, d, tags<tag_a, tag_b>); }
Done d_tags_thunk(Next n, ALL) { return comp(with_tags<tag_b>, lager::with_thunk())(Rest{n})(type_<Ac>{}, m, r, l, d, t); }
Done o_tags_thunk(Next n, ALL) { return n(type_<type_<Thunk>>{}, m, 0, l, d, tags<tag_a, tag_b>); }

// ---- the whole of make_store: what its enhancers start from
struct Here
{
    Next n;
    template <typename N>
    Next operator()(N) const { return n; }
};
Done d_store(Next n, M m, Loop& l) { return lager::make_store<Ac, tag_a>(m, l, Here{n}); }
Done o_store(Next n, M m, Loop& l) { return n(type_<Ac>{}, m, lager::default_reducer, l, D0{}, tags<tag_a>); }
Done d_store_moved(Next n, M m, Loop& l) { return lager::make_store<Ac, tag_a>(std::move(m), l, Here{n}); }
Done o_store_moved(Next n, M m, Loop& l) { return n(type_<Ac>{}, m, lager::default_reducer, l, D0{}, tags<tag_a>); }
Done d_store_reducer(Next n, M m, Loop& l, R r) { return lager::make_store<Ac, tag_a>(m, l, with_reducer(r), Here{n}); }
Done o_store_reducer(Next n, M m, Loop& l, R r) { return n(type_<Ac>{}, m, r, l, D0{}, tags<tag_a>); }
Done d_store_two(Next n, M m, Loop& l, R r) { return lager::make_store<Ac, tag_a>(m, l, with_reducer(r), with_tags<tag_b>, Here{n}); }
Done o_store_two(Next n, M m, Loop& l, R r) { return n(type_<Ac>{}, m, r, l, D0{}, tags<tag_a, tag_b>); }
Done d_store_last_reducer(Next n, M m, Loop& l, R r, R r2) { return lager::make_store<Ac, tag_a>(m, l, with_reducer(r), with_reducer(r2), Here{n}); }
Done o_store_last_reducer(Next n, M m, Loop& l, R r, R r2) { return n(type_<Ac>{}, m, r2, l, D0{}, tags<tag_a>); }
Done d_store_three(Next n, M m, Loop& l, R r, DB b) { return lager::make_store<Ac, tag_a>(std::move(m), l, with_reducer(r), with_futures, with_deps(b), Here{n}); }
Done o_store_three(Next n, M m, Loop& l, R r, DB b) { return n(type_<Ac>{}, m, r, l, D0{}.merge(lager::make_deps(b)), tags<tag_a, lager::enable_futures_tag>); }

// ---- debuggers
template <typename T>
struct Reading { Reading(const Reading&); Reading(Reading&&); };
template <typename T>
struct Built
{
    Built(const Built&);
    Built(Built&&);
    template <typename X>
    Reading<T> xform(X&&) const;
};
template <typename D>
struct Handle
{
    using deps_t = D;
    Handle(const Handle&);
    Handle(Handle&&);
    template <typename S, typename X>
    void init(S&&, X&&);
    Handle* operator->() const;
};
struct Server
{
    template <typename D>
    Handle<D> make(D&&);
};
template <typename A_, typename M_, typename D_>
struct Deb
{
    struct model { M_ m; };
    struct action { A_ a; };
    template <typename Re>
    static lager::result<model, action, D_> update(Re&& r, model m, action a);
};
using DM = Deb<Ac, M, D1>::model;
using DAc = Deb<Ac, M, D1>::action;
struct NextD
{
    Next n;
    template <typename A, typename Mo, typename Re, typename Lo, typename De, typename Ta>
    Built<std::decay_t<Mo>> operator()(A a, Mo&& m, Re&& r, Lo&& l, De&& d, Ta&& t) const
    {
        n(a, m.m, 0, LAGER_FWD(l), LAGER_FWD(d), LAGER_FWD(t));
        return build<std::decay_t<Mo>>();
    }
    template <typename T>
    static Built<T> build();
};
Built<DM> d_debugger(Next n, ALL, Server& s) { return lager::with_debugger<Deb>(s)(NextD{n})(type_<Ac>{}, m, r, l, d, t); }
Built<DM> o_debugger(Next n, ALL, Server& s)
{
    auto h = s.make(Deb<Ac, M, D1>{});
    n(type_<DAc>{}, m, 0, l, d.merge(lager::make_deps(h)), t);
    return NextD::build<DM>();
}
struct RunD
{
    DAc a;
    template <typename A, typename Mo, typename Re, typename Lo, typename De, typename Ta>
    Built<DM> operator()(A, Mo&& m, Re&& r, Lo&&, De&&, Ta&&) const
    {
        note(r(std::move(m), a));
        return NextD::build<DM>();
    }
    static void note(const lager::result<DM, DAc, D1>&);
};
Built<DM> d_debugger_runs(DAc a, ALL, Server& s) { return lager::with_debugger<Deb>(s)(RunD{a})(type_<Ac>{}, m, r, l, d, t); }
Built<DM> o_debugger_runs(DAc a, ALL, Server& s)
{
    auto h = s.make(Deb<Ac, M, D1>{});
    RunD::note(Deb<Ac, M, D1>::update(r, DM{m}, a));
    return NextD::build<DM>();
}
}

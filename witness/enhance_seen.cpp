// Enhancers of stores: the dependencies the next stage finds.
#include "first.hpp"
#include <functional>
#include <variant>
#include <lager/store.hpp>
#include <lager/extra/thunk.hpp>
#include <lager/debug/debugger.hpp>
#include "opaque.hpp"
namespace W {
using M  = Val<0>;
using Ac = Val<1>;
using R  = Fn<M, M, Ac>;
struct Loop { Loop(const Loop&); Loop(Loop&&); void post(std::function<void()>); void async(std::function<void()>); void finish(); void pause(); void resume(); };
struct DA { DA(const DA&); DA(DA&&); };
struct DB { DB(const DB&); DB(DB&&); };
struct DC { DC(const DC&); DC(DC&&); };
struct DE { DE(const DE&); DE(DE&&); };
struct tag_a {};
struct tag_b {};
struct tag_c {};
struct Done { Done(const Done&); Done(Done&&); };
// the next stage
struct Next
{
    Next(const Next&);
    Next(Next&&);
    template <typename A, typename Mo, typename Re, typename Lo, typename De, typename Ta>
    Done operator()(A, Mo&&, Re&&, Lo&&, De&&, Ta&&) const;
};
using D0 = lager::deps<>;
using D1 = lager::deps<DA, DE&>;
template <typename... Ts>
constexpr auto tags = boost::hana::make_set(boost::hana::type_c<Ts>...);
template <typename... Ts>
using Tags = std::decay_t<decltype(tags<Ts...>)>;
template <typename T>
using type_ = lager::type_<T>;
using lager::with_tags, lager::with_deps, lager::with_reducer, lager::with_futures;
using zug::comp;

#define ALL M m, R r, Loop& l, D1 d, Tags<tag_a> t
// dependencies seen in the next stage, wherever they were added
template <typename Key>
struct Look
{
    template <typename A, typename Mo, typename Re, typename Lo, typename De, typename Ta>
    auto operator()(A, Mo&&, Re&&, Lo&&, De&& d, Ta&&) const
    {
        if constexpr (std::is_pointer_v<Key>)
            return Key(&d.template get<std::remove_pointer_t<Key>>());
        else
            return Key(d.template get<Key>());
    }
};
#define SEEN(name, ret, key, enh, oracle, ...) \
    ret g_##name(__VA_ARGS__) { return (enh)(Look<key>{})(type_<Ac>{}, m, r, l, d, t); } \
    ret p_##name(__VA_ARGS__) { return oracle; }
SEEN(old_value, DA, DA, with_deps(b), d.template get<DA>(), ALL, DB b)
SEEN(old_object, DE*, DE*, with_deps(b), &d.template get<DE>(), ALL, DB b)
SEEN(new_value, DB, DB, with_deps(b), b, ALL, DB b)
SEEN(new_object, DB*, DB*, with_deps(std::ref(b)), &b, ALL, DB& b)
SEEN(old_after_two, DE*, DE*, comp(with_deps(b), with_deps(c)), &d.template get<DE>(), ALL, DB b, DC c)
SEEN(first_of_two, DB, DB, comp(with_deps(b), with_deps(c)), b, ALL, DB b, DC c)
SEEN(second_of_two, DC, DC, comp(with_deps(b), with_deps(c)), c, ALL, DB b, DC c)
SEEN(with_others, DB, DB, comp(with_tags<tag_b>, with_deps(b), with_reducer(r)), b, ALL, DB b)

}

// Dependency sets: what goes in under a key must come out under it.
#include "first.hpp"
#include <functional>
#include <optional>
#include <lager/deps.hpp>
#include "opaque.hpp"
namespace W {
using A = Val<0>;
using B = Val<1>;
using D = Val<2>;
struct K1 {};
struct K2 {};
namespace dep = lager::dep;
using lager::deps;
template <typename... Ts> using dp = deps<Ts...>;
// the value or object a lookup gives, against what it must give
#define GET(name, ret, expr, oracle, ...) \
    ret g_##name(__VA_ARGS__) { return expr; } \
    ret o_##name(__VA_ARGS__) { return oracle; }
// an object must come out as that very object: what the lookup gives is not converted here
#define GETR(name, ret, expr, oracle, ...) \
    decltype(auto) g_##name(__VA_ARGS__) { return expr; } \
    ret o_##name(__VA_ARGS__) { return oracle; }
#define P3 A a, B& b, D d
using St = dep::to_spec<A>::storage;
using AB  = deps<A, B&>;
using ABD = deps<A, B&, D>;
#define abd ABD::with(a, b, d)
// ---- straight lookups
GET(val, A, AB::with(a, b).template get<A>(), a, A a, B& b)
GETR(ref, B&, AB::with(a, b).template get<B>(), b, A a, B& b)
GET(first, A, abd.get<A>(), a, P3)
GETR(second, B&, abd.get<B>(), b, P3)
GET(third, D, abd.get<D>(), d, P3)
GETR(wrapped, B&, (deps<std::reference_wrapper<B>>::with(b).get<B>()), b, B& b)
GET(free_val, A, lager::get<A>(abd), a, P3)
GETR(free_ref, B&, lager::get<B>(abd), b, P3)
GET(made_val, A, lager::make_deps(a, std::ref(b)).template get<A>(), a, A a, B& b)
GETR(made_ref, B&, lager::make_deps(a, std::ref(b)).template get<B>(), b, A a, B& b)
GET(made_lvalue, A, ([&] { A x = a; auto y = lager::make_deps(x, b); x = a2; return y.template get<A>(); }()), a, A a, A a2, B& b)
#define KEYS deps<dep::key<K1, A>, dep::key<K2, A>, dep::key<D, B&>, A>::with(a, a2, b, a3)
#define PK A a, A a2, B& b, A a3
GET(key_1, A, KEYS.get<K1>(), a, PK)
GET(key_2, A, KEYS.get<K2>(), a2, PK)
GETR(key_ref, B&, KEYS.get<D>(), b, PK)
GET(key_plain, A, KEYS.get<A>(), a3, PK)
#define REFS deps<dep::key<K1, B&>, dep::key<K2, B&>, B&>::with(b1, b2, b3)
#define PR B& b1, B& b2, B& b3
GETR(key_ref_1, B&, REFS.get<K1>(), b1, PR)
GETR(key_ref_2, B&, REFS.get<K2>(), b2, PR)
GETR(key_ref_plain, B&, REFS.get<B>(), b3, PR)
GET(as_key, A, (lager::make_deps(dep::as<dep::key<K1, A>>(a), b).template get<K1>()), a, A a, B b)
GET(as_other, B, (lager::make_deps(dep::as<dep::key<K1, A>>(a), b).template get<B>()), b, A a, B b)
GET(fn, A, (deps<dep::fn<A>>::with([f] { return St{f()}; }).template get<A>()), f(), Fn<A> f)
GETR(fn_ref, B&, (deps<dep::fn<B&>>::with([&b]() -> B& { return b; }).template get<B>()), b, B& b)
GET(fn_key, A, (deps<dep::key<K1, dep::fn<A>>, A>::with([f] { return St{f()}; }, a).template get<K1>()), f(), Fn<A> f, A a)
GET(fn_key_plain, A, (deps<dep::key<K1, dep::fn<A>>, A>::with([f] { return St{f()}; }, a).template get<A>()), a, Fn<A> f, A a)
GET(opt_present, A, (deps<dep::opt<A>, B&>::with(St{a}, b).template get<A>()), a, A a, B& b)
GETR(opt_ref_present, B&, (deps<A, dep::opt<B&>>::with(a, std::ref(b)).template get<B>()), b, A a, B& b)
GET(opt_key_present, A, (deps<dep::opt<dep::key<K1, A>>, A>::with(St{a}, a2).template get<K1>()), a, A a, A a2)
GETR(opt_other, B&, (deps<dep::opt<A>, B&>::with(std::nullopt, b).template get<B>()), b, B& b)
GET(copied, A, ([&] { auto x = abd; auto y = x; return y.template get<A>(); }()), a, P3)
GET(assigned, A, ([&] { ABD x = ABD::with(a2, b, d); x = abd; return x.template get<A>(); }()), a, P3, A a2)
GETR(assigned_ref, B&, ([&]() -> decltype(auto) { ABD x = ABD::with(a, b2, d); x = abd; return x.template get<B>(); }()), b, P3, B& b2)
GET(copy_assigned, A, ([&] { ABD x = ABD::with(a2, b, d); const ABD y = abd; x = y; return x.template get<A>(); }()), a, P3, A a2)
GET(fn_each_time, A, ([&] { auto x = deps<dep::fn<A>>::with([f] { return St{f()}; }); x.template get<A>(); return x.template get<A>(); }()), (f(), f()), Fn<A> f)
GET(twice, A, ([&] { auto x = abd; x.template get<A>(); return x.template get<A>(); }()), a, P3)
// ---- conversions
GET(narrow_val, A, deps<A>{abd}.get<A>(), a, P3)
GETR(narrow_ref, B&, deps<B&>{abd}.get<B>(), b, P3)
GET(narrow_last, D, deps<D>{abd}.get<D>(), d, P3)
GET(reorder_1, A, (deps<D, B&, A>{abd}.template get<A>()), a, P3)
GETR(reorder_2, B&, (deps<D, B&, A>{abd}.template get<B>()), b, P3)
GET(reorder_3, D, (deps<D, B&, A>{abd}.template get<D>()), d, P3)
GETR(convert_twice, B&, (deps<B&>{deps<D, B&>{abd}}.template get<B>()), b, P3)
GET(convert_back, A, (deps<A, D>{deps<D, A>{abd}}.template get<A>()), a, P3)
GET(convert_moved, A, (deps<A>{std::move(abd)}.template get<A>()), a, P3)
GET(convert_keeps, A, ([&] { auto x = abd; deps<A> y = x; deps<A, D> z = x; return x.template get<A>(); }()), a, P3)
GETR(convert_keeps_ref, B&, ([&]() -> decltype(auto) { auto x = abd; deps<B&> y = x; return x.template get<B>(); }()), b, P3)
GET(key_convert_1, A, (deps<A, dep::key<K1, A>>{KEYS}.template get<K1>()), a, PK)
GET(key_convert_2, A, (deps<A, dep::key<K1, A>>{KEYS}.template get<A>()), a3, PK)
GET(key_convert_3, A, (deps<dep::key<K2, A>>{KEYS}.template get<K2>()), a2, PK)
GETR(key_ref_convert_1, B&, (deps<dep::key<K2, B&>, dep::key<K1, B&>>{REFS}.template get<K1>()), b1, PR)
GETR(key_ref_convert_2, B&, (deps<dep::key<K2, B&>, dep::key<K1, B&>>{REFS}.template get<K2>()), b2, PR)
GET(to_opt, A, (deps<dep::opt<A>>{abd}.template get<A>()), a, P3)
GETR(to_opt_ref, B&, (deps<dep::opt<B&>, D>{abd}.template get<B>()), b, P3)
GET(to_opt_key, A, (deps<dep::opt<dep::key<K2, A>>>{KEYS}.template get<K2>()), a2, PK)
GET(to_opt_mixed, A, (deps<dep::opt<D>, A, dep::opt<K1>>{abd}.template get<A>()), a, P3)
GET(to_opt_mixed_opt, D, (deps<dep::opt<D>, A, dep::opt<K1>>{abd}.template get<D>()), d, P3)
GET(opt_to_opt, A, (deps<dep::opt<A>>{deps<dep::opt<A>, B&>::with(St{a}, b)}.template get<A>()), a, A a, B& b)
GET(opt_twice, A, (deps<dep::opt<A>>{deps<dep::opt<A>, dep::opt<D>>{abd}}.template get<A>()), a, P3)
GET(fn_to_val, A, (deps<A>{deps<dep::fn<A>>::with([f] { return St{f()}; })}.template get<A>()), f(), Fn<A> f)
GETR(fn_to_ref, B&, (deps<B&>{deps<dep::fn<B&>, A>::with([&b]() -> B& { return b; }, a)}.template get<B>()), b, B& b, A a)
GET(fn_to_fn, A, (deps<dep::fn<A>>{deps<dep::fn<A>, B>::with([f] { return St{f()}; }, b)}.template get<A>()), f(), Fn<A> f, B b)
// ---- merges
GET(merge_left, A, (deps<A>::with(a).merge(deps<B&>::with(b)).template get<A>()), a, A a, B& b)
GETR(merge_right, B&, (deps<A>::with(a).merge(deps<B&>::with(b)).template get<B>()), b, A a, B& b)
GET(merge_conflict, A, (deps<A>::with(a).merge(deps<A>::with(a2)).template get<A>()), a2, A a, A a2)
GETR(merge_conflict_ref, B&, (deps<B&>::with(b).merge(deps<B&, A>::with(b2, a)).template get<B>()), b2, B& b, B& b2, A a)
GET(merge_conflict_key, A, (deps<dep::key<K1, A>, A>::with(a, a2).merge(deps<dep::key<K1, A>>::with(a3)).template get<K1>()), a3, A a, A a2, A a3)
GET(merge_conflict_other, A, (deps<dep::key<K1, A>, A>::with(a, a2).merge(deps<dep::key<K1, A>>::with(a3)).template get<A>()), a2, A a, A a2, A a3)
GETR(merge_keeps, B&, (deps<A, B&>::with(a, b).merge(deps<A>::with(a2)).template get<B>()), b, A a, B& b, A a2)
GET(merge_three, A, (deps<A>::with(a).merge(deps<B&>::with(b)).merge(deps<D>::with(d)).template get<A>()), a, P3)
GET(merge_three_last, D, (deps<A>::with(a).merge(deps<B&>::with(b)).merge(deps<D>::with(d)).template get<D>()), d, P3)
GET(merge_three_conflict, A, (deps<A>::with(a).merge(deps<A, B&>::with(a2, b)).merge(deps<A>::with(a3)).template get<A>()), a3, A a, A a2, A a3, B& b)
GET(merge_leaves_left, A, ([&] { auto x = deps<A>::with(a); auto y = x.merge(deps<B&>::with(b)); return x.template get<A>(); }()), a, A a, B& b)
GET(merge_leaves_right, A, ([&] { auto x = deps<A>::with(a); auto y = deps<B&>::with(b).merge(x); return x.template get<A>(); }()), a, A a, B& b)
GETR(merge_then_narrow, B&, (deps<B&>{deps<A>::with(a).merge(deps<B&>::with(b))}.template get<B>()), b, A a, B& b)
GET(merge_opt, A, (deps<dep::opt<A>>{abd}.merge(deps<B&>::with(b)).template get<A>()), a, P3)
GET(merge_with_empty, A, (deps<A>::with(a).merge(deps<>{}).template get<A>()), a, A a)
GET(empty_merge, A, (deps<>{}.merge(deps<A>::with(a)).template get<A>()), a, A a)
GET(two_left, A, (deps<A, B&>{deps<A>::with(a), deps<B&>::with(b)}.template get<A>()), a, A a, B& b)
GETR(two_right, B&, (deps<A, B&>{deps<A>::with(a), deps<B&>::with(b)}.template get<B>()), b, A a, B& b)
GET(two_conflict, A, (deps<A>{deps<A>::with(a), deps<A>::with(a2)}.template get<A>()), a2, A a, A a2)
GETR(two_subset, B&, (deps<B&>{deps<A>::with(a), deps<B&>::with(b)}.template get<B>()), b, A a, B& b)
GET(two_opt, A, (deps<dep::opt<A>, B&>{deps<A>::with(a), deps<B&>::with(b)}.template get<A>()), a, A a, B& b)
// ---- presence
GET(has_required, bool, abd.has<A>(), true, P3)
GET(has_free, bool, lager::has<B>(abd), true, P3)
GET(has_free_missing, bool, lager::has<K1>(deps<dep::opt<K1>>{abd}), false, P3)
GET(has_fn, bool, (deps<dep::fn<A>>::with([f] { return St{f()}; }).template has<A>()), true, Fn<A> f)
GET(has_opt, bool, (deps<dep::opt<A>>::with(St{a}).template has<A>()), true, A a)
GET(has_opt_ref, bool, (deps<dep::opt<B&>, A>{abd}.template has<B>()), true, P3)
GET(has_opt_none, bool, (deps<dep::opt<A>>::with(std::nullopt).template has<A>()), false, A a)
GET(has_opt_default, bool, (deps<dep::opt<A>>{}.template has<A>()), false, A a)
GET(has_opt_missing, bool, (deps<dep::opt<K1>>{abd}.template has<K1>()), false, P3)
GET(has_opt_key, bool, (deps<dep::opt<dep::key<K2, A>>>{KEYS}.template has<K2>()), true, PK)
GET(has_opt_key_missing, bool, (deps<dep::opt<dep::key<K2, A>>>{abd}.template has<K2>()), false, P3)
GET(has_opt_lost, bool, (deps<dep::opt<A>>{deps<B&>{abd}}.template has<A>()), false, P3)
GET(has_opt_kept, bool, (deps<dep::opt<A>>{deps<dep::opt<A>, B&>{abd}}.template has<A>()), true, P3)
GET(has_merge_missing, bool, (deps<dep::opt<K1>>{abd}.merge(deps<A>::with(a)).template has<K1>()), false, P3)
GET(has_opt_unknown, bool, (deps<dep::opt<A>>::with(o).template has<A>()), o.has_value(), std::optional<dep::to_spec<A>::storage> o)
GET(has_opt_unknown_kept, bool, (deps<dep::opt<A>>{deps<dep::opt<A>, B&>::with(o, b)}.template has<A>()), o.has_value(), std::optional<dep::to_spec<A>::storage> o, B& b)
GET(opt_unknown, A, (deps<dep::opt<A>>::with(o).template get<A>()), o ? o->value : throw lager::missing_dependency_error{""}, std::optional<dep::to_spec<A>::storage> o)
GET(opt_unknown_kept, A, (deps<dep::opt<A>>{deps<dep::opt<A>, B&>::with(o, b)}.template get<A>()), o ? o->value : throw lager::missing_dependency_error{""}, std::optional<dep::to_spec<A>::storage> o, B& b)
GETR(opt_unknown_ref, B&, (deps<dep::opt<B&>>::with(o).template get<B>()), o ? o->get() : throw lager::missing_dependency_error{""}, std::optional<std::reference_wrapper<B>> o)
// ---- a missing optional one throws
A x_none() { return deps<dep::opt<A>>::with(std::nullopt).get<A>(); }
A x_default() { return deps<dep::opt<A>>{}.get<A>(); }
K1 x_missing(P3) { return deps<dep::opt<K1>>{abd}.get<K1>(); }
A x_missing_key(P3) { return deps<dep::opt<dep::key<K2, A>>>{abd}.get<K2>(); }
decltype(auto) x_missing_ref(A a, D d) { return deps<dep::opt<B&>>{deps<A, D>::with(a, d)}.get<B>(); }
decltype(auto) x_missing_free(A a, D d) { deps<dep::opt<B&>> x{deps<A, D>::with(a, d)}; return lager::get<B>(x); }
A x_lost(P3) { return deps<dep::opt<A>>{deps<B&>{abd}}.get<A>(); }
}

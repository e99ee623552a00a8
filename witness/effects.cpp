// Effects, what they are made of, and their combinators.
#include "first.hpp"
#include <functional>
#include <variant>
#include <lager/effect.hpp>
#include <lager/future.hpp>
#include "opaque.hpp"
namespace W {
struct A { A(const A&); };
struct B { B(const B&); };
using AB = std::variant<A, B>;
struct Dep { Dep(const Dep&); Dep(Dep&&); };
struct Dep2 { Dep2(const Dep2&); Dep2(Dep2&&); };
using DD  = lager::deps<Dep, Dep2>;
using E   = lager::effect<A>;
using EB  = lager::effect<B>;
using EV  = lager::effect<AB>;
using ED  = lager::effect<A, lager::deps<Dep>>;
using EDD = lager::effect<A, DD>;
using EAB = lager::effect<lager::actions<A, B>>;
using Cx  = lager::context<A>;
using CV  = lager::context<AB>;
using CD  = lager::context<A, DD>;
using CAB = lager::context<lager::actions<A, B>>;
// procedures an effect can be made of
struct VoidFn { VoidFn(const VoidFn&); VoidFn(VoidFn&&); void operator()(const Cx&) const; };
struct FutFn { FutFn(const FutFn&); FutFn(FutFn&&); lager::future operator()(const Cx&) const; };
// a future made by nobody
lager::future nothing();

// ---- running a combination: parts are the parameters before the context, in order
#define RUN(name, ctx, expr, ...) \
    lager::future s_##name(__VA_ARGS__, const ctx& c) { auto e = expr; return e(c); } \
    lager::future t_##name(__VA_ARGS__, const ctx& c) { auto e = expr; e(c); return e(c); }
// the same for an effect used on its own: it is not empty
#define RUN1(name, ctx, expr, ...) \
    lager::future u_##name(__VA_ARGS__, const ctx& c) { auto e = expr; return e(c); } \
    lager::future w_##name(__VA_ARGS__, const ctx& c) { auto e = expr; e(c); return e(c); }
using lager::sequence;
RUN(two, Cx, sequence(a, b), E a, E b)
RUN(two_moved, Cx, sequence(std::move(a), std::move(b)), E a, E b)
RUN(three, Cx, sequence(a, b, d), E a, E b, E d)
RUN(four, Cx, sequence(a, b, d, f), E a, E b, E d, E f)
RUN(nested_left, Cx, sequence(sequence(a, b), d), E a, E b, E d)
RUN(nested_right, Cx, sequence(a, sequence(b, d)), E a, E b, E d)
RUN(different_actions, CAB, sequence(a, b), E a, EB b)
RUN(different_deps, CD, sequence(a, b), E a, EDD b)
RUN(less_deps, CD, sequence(a, b), EDD a, ED b)
RUN1(alone, Cx, a, E a)
RUN1(converted, CV, EV{a}, E a)
RUN1(converted_moved, CV, EV{std::move(a)}, E a)
RUN1(converted_deps, CD, EDD{a}, ED a)
RUN1(converted_twice, CD, EDD{ED{a}}, E a)
RUN(converted_sequence, CV, EV{sequence(a, b)}, E a, E b)
RUN1(assigned, Cx, ([&] { E e; e = a; return e; }()), E a)
RUN(first_noop, Cx, sequence(E{lager::noop}, a), E a)
RUN(second_noop, Cx, sequence(a, E{lager::noop}), E a)
RUN(first_empty, Cx, sequence(E{}, a), E a)
RUN(second_empty, Cx, sequence(a, E{}), E a)
RUN(middle_empty, Cx, sequence(a, E{}, b), E a, E b)
RUN(from_void, Cx, E{f}, VoidFn f)
RUN(from_future, Cx, E{f}, FutFn f)
RUN(from_void_converted, CV, EV{E{f}}, VoidFn f)
RUN(void_then_effect, Cx, sequence(E{f}, a), VoidFn f, E a)
RUN(effect_then_void, Cx, sequence(a, E{f}), E a, VoidFn f)
RUN(future_then_void, Cx, sequence(E{g}, E{f}), FutFn g, VoidFn f)
RUN1(result, Cx, (lager::result<int, A>{1, a}.second), E a)
RUN1(result_converted, CV, (lager::result<int, AB>{1, a}.second), E a)
RUN1(result_of_result, CV, (lager::result<long, AB>{lager::result<int, A>{1, a}}.second), E a)
RUN(result_of_sequence, CV, (lager::result<long, AB>{lager::result<int, A>{1, sequence(a, b)}}.second), E a, E b)
RUN(result_void, Cx, (lager::result<int, A>{1, f}.second), VoidFn f)

// ---- emptiness
bool e_default() { return lager::is_empty_effect(E{}); }
bool e_noop() { return lager::is_empty_effect(E{lager::noop}); }
bool e_assigned_noop() { E e; e = lager::noop; return lager::is_empty_effect(e); }
bool e_null_function() { return lager::is_empty_effect(E{std::function<lager::future(const Cx&)>{}}); }
bool e_result_without() { return lager::is_empty_effect(lager::result<int, A>{1}.second); }
bool e_result_noop() { return lager::is_empty_effect(lager::result<int, A>{1, lager::noop}.second); }
bool e_noop_converted() { return lager::is_empty_effect(EV{E{lager::noop}}); }
bool e_noop_converted_deps() { return lager::is_empty_effect(EDD{ED{E{lager::noop}}}); }
bool e_default_converted() { return lager::is_empty_effect(EV{E{}}); }
bool e_noops() { return lager::is_empty_effect(sequence(E{lager::noop}, E{lager::noop})); }
bool e_noop_copied() { E e{lager::noop}; E f{e}; E g; g = f; E h{std::move(g)}; return lager::is_empty_effect(h); }
bool n_void(VoidFn f) { return lager::is_empty_effect(E{f}); }
bool n_future(FutFn f) { return lager::is_empty_effect(E{f}); }
bool n_converted(VoidFn f) { return lager::is_empty_effect(EV{E{f}}); }
bool n_result(VoidFn f) { return lager::is_empty_effect(lager::result<int, A>{1, f}.second); }
bool n_sequence(VoidFn f, FutFn g) { return lager::is_empty_effect(sequence(E{f}, E{g})); }
// the same emptiness as all their parts
bool p_alone(const E& a) { return lager::is_empty_effect(a); }
bool p_copied(const E& a) { E e{a}; return lager::is_empty_effect(e); }
bool p_converted(const E& a) { return lager::is_empty_effect(EV{a}); }
bool p_converted_deps(const ED& a) { return lager::is_empty_effect(EDD{a}); }
bool p_result(const E& a) { return lager::is_empty_effect(lager::result<int, A>{1, a}.second); }
bool p_result_converted(const E& a) { return lager::is_empty_effect(lager::result<long, AB>{lager::result<int, A>{1, a}}.second); }
bool p_two(const E& a, const E& b) { return lager::is_empty_effect(sequence(a, b)); }
bool p_three(const E& a, const E& b, const E& d) { return lager::is_empty_effect(sequence(a, b, d)); }
bool p_different(const E& a, const EB& b) { return lager::is_empty_effect(sequence(a, b)); }

// ---- model of a result
lager::result<T, A> m_alone(T x) { return {x}; }
lager::result<T, A> m_effect(T x, E a) { return {x, a}; }
lager::result<T, AB> m_convert(lager::result<T, A> r) { return r; }
lager::result<T, AB> m_convert_moved(lager::result<T, A> r) { return {std::move(r)}; }

// ---- reducers with and without effects
using M = Val<0>;
using Plain = Fn<M, M, A>;
using WithE = Fn<std::pair<M, E>, M, A>;
using Res = Fn<lager::result<M, A>, M, A>;
struct On { On(const On&); void operator()(const E&) const; };
struct Off { Off(const Off&); void operator()() const; };
M r_plain(Plain f, M m, A a, On on, Off off) { return lager::invoke_reducer(f, m, a, on, off); }
M r_pair(WithE f, M m, A a, On on, Off off) { return lager::invoke_reducer(f, m, a, on, off); }
M r_result(Res f, M m, A a, On on, Off off) { return lager::invoke_reducer(f, m, a, on, off); }
}

// Contexts: where actions, loop calls and lookups end up after any conversion.
#include "first.hpp"
#include <functional>
#include <variant>
#include <lager/context.hpp>
#include <lager/future.hpp>
#include "opaque.hpp"
namespace W {
struct A { A(const A&); A(A&&); };
struct B { B(const B&); B(B&&); };
struct C_ { C_(const C_&); C_(C_&&); };
using AB  = std::variant<A, B>;
using ABC = std::variant<A, B, C_>;
using dA = Val<0>;
using dB = Val<1>;
using DD = lager::deps<dA, dB&>;
using lager::actions;
using lager::context;
struct Loop
{
    Loop(const Loop&);
    void post(std::function<void()>);
    void async(std::function<void()>);
    void finish();
    void pause();
    void resume();
};
// dispatch functions of a store
using Disp  = Fn<lager::future, A>;
using DispV = Fn<lager::future, AB>;
using DispW = Fn<lager::future, ABC>;
struct Disp2 { Disp2(const Disp2&); Disp2(Disp2&&); lager::future operator()(A) const; lager::future operator()(B) const; };
using Conv  = Fn<AB, A>;    // action converters
using Conv2 = Fn<A, C_>;
#define DIS(name, expr, oracle, ...) \
    lager::future d_##name(__VA_ARGS__) { return expr; } \
    lager::future o_##name(__VA_ARGS__) { return oracle; }
// ---- made from a dispatch function
DIS(made, context<A>(f, l, {}).dispatch(a), f(a), Disp f, Loop& l, A a)
DIS(made_moved, context<A>(f, l, {}).dispatch(std::move(a)), f(a), Disp f, Loop& l, A a)
DIS(made_variant, context<AB>(f, l, {}).dispatch(v), f(v), DispV f, Loop& l, AB v)
DIS(made_part, context<AB>(f, l, {}).dispatch(a), f(AB{a}), DispV f, Loop& l, A a)
DIS(made_two_1, (context<actions<A, B>>(f, l, {}).dispatch(a)), f(a), Disp2 f, Loop& l, A a)
DIS(made_two_2, (context<actions<A, B>>(f, l, {}).dispatch(b)), f(b), Disp2 f, Loop& l, B b)
DIS(made_deps, (context<A, DD>(f, l, DD::with(x, y)).dispatch(a)), f(a), Disp f, Loop& l, A a, dA x, dB& y)
// ---- converted
DIS(copied, ([&] { context<A> c{f, l, {}}; auto c2 = c; return c2.dispatch(a); }()), f(a), Disp f, Loop& l, A a)
DIS(assigned, ([&] { context<A> c{f, l, {}}; context<A> c2; c2 = c; return c2.dispatch(a); }()), f(a), Disp f, Loop& l, A a)
DIS(moved, ([&] { context<A> c{f, l, {}}; context<A> c2{std::move(c)}; return c2.dispatch(a); }()), f(a), Disp f, Loop& l, A a)
DIS(original_after_conversion, ([&] { context<AB> c{f, l, {}}; context<A> c2{c}; context<B> c3{c}; return c.dispatch(a); }()), f(AB{a}), DispV f, Loop& l, A a)
DIS(to_part, context<A>(c).dispatch(a), c.dispatch(AB{a}), const context<AB>& c, A a)
DIS(to_part_moved, context<A>(c).dispatch(std::move(a)), c.dispatch(AB{a}), const context<AB>& c, A a)
DIS(to_parts_1, (context<actions<A, B>>(c).dispatch(a)), c.dispatch(ABC{a}), const context<ABC>& c, A a)
DIS(to_parts_2, (context<actions<A, B>>(c).dispatch(b)), c.dispatch(ABC{b}), const context<ABC>& c, B b)
DIS(to_parts_swapped, (context<actions<B, A>>(c).dispatch(a)), c.dispatch(ABC{a}), const context<ABC>& c, A a)
DIS(parts_to_part_1, context<A>(c).dispatch(a), c.dispatch(a), const context<actions<A, B>>& c, A a)
DIS(parts_to_part_2, context<B>(c).dispatch(b), c.dispatch(b), const context<actions<A, B>>& c, B b)
DIS(parts_to_swapped, (context<actions<B, A>>(c).dispatch(a)), c.dispatch(a), const context<actions<A, B>>& c, A a)
DIS(parts_to_fewer, (context<actions<C_, A>>(c).dispatch(x)), c.dispatch(x), const context<actions<A, B, C_>>& c, C_ x)
DIS(twice, context<A>(context<actions<A, B>>(c)).dispatch(a), c.dispatch(ABC{a}), const context<ABC>& c, A a)
DIS(thrice, context<B>(context<actions<B>>(context<actions<A, B>>(c))).dispatch(b), c.dispatch(ABC{b}), const context<ABC>& c, B b)
DIS(fewer_deps, (context<A, lager::deps<dB&>>(c).dispatch(a)), c.dispatch(a), const context<A, DD>& c, A a)
DIS(fewer_both, (context<A, lager::deps<dB&>>(c).dispatch(a)), c.dispatch(AB{a}), const context<AB, DD>& c, A a)
DIS(same_twice, (c.dispatch(a), c.dispatch(b)), (c.dispatch(a), c.dispatch(b)), const context<actions<A, B>>& c, A a, B b)
// ---- with a converter of actions
DIS(converter, context<A>(c, k).dispatch(a), c.dispatch(k(a)), const context<AB>& c, Conv k, A a)
DIS(converter_moved, context<A>(c, k).dispatch(std::move(a)), c.dispatch(k(a)), const context<AB>& c, Conv k, A a)
DIS(converter_to_part, context<C_>(c, k).dispatch(x), c.dispatch(k(x)), const context<actions<B, A>>& c, Conv2 k, C_ x)
DIS(converter_then_part, (context<A>(context<actions<A>>(c, k)).dispatch(a)), c.dispatch(k(a)), const context<AB>& c, Conv k, A a)
DIS(converter_twice, (context<C_>(context<A>(c, k), k2).dispatch(x)), c.dispatch(k(k2(x))), const context<AB>& c, Conv k, Conv2 k2, C_ x)
DIS(converter_deps, (context<A, lager::deps<dA>>(c, k).dispatch(a)), c.dispatch(k(a)), const context<AB, DD>& c, Conv k, A a)
DIS(converter_again, ([&] { context<A> q(c, k); q.dispatch(a); return q.dispatch(a); }()), (c.dispatch(k(a)), c.dispatch(k(a))), const context<AB>& c, Conv k, A a)

// ---- dependencies seen through a context
#define DEP(name, ret, expr, oracle, ...) \
    ret g_##name(__VA_ARGS__) { return expr; } \
    ret p_##name(__VA_ARGS__) { return oracle; }
DEP(made_value, dA, (context<A, DD>(f, l, DD::with(x, y)).template get<dA>()), x, Disp f, Loop& l, dA x, dB& y)
DEP(made_object, dB&, (context<A, DD>(f, l, DD::with(x, y)).template get<dB>()), y, Disp f, Loop& l, dA x, dB& y)
DEP(value, dA, (context<A, lager::deps<dA>>(c).template get<dA>()), c.template get<dA>(), const context<AB, DD>& c)
DEP(object, dB&, (context<A, lager::deps<dB&>>(c).template get<dB>()), c.template get<dB>(), const context<AB, DD>& c)
DEP(free, dB&, (lager::get<dB>(context<A, lager::deps<dB&>>(c))), c.template get<dB>(), const context<AB, DD>& c)
DEP(only_deps, dB&, (context<void, lager::deps<dB&>>(c).template get<dB>()), c.template get<dB>(), const context<AB, DD>& c)
DEP(converted_with, dA, (context<A, lager::deps<dA>>(c, k).template get<dA>()), c.template get<dA>(), const context<AB, DD>& c, Conv k)
DEP(copied, dA, ([&] { context<AB, DD> d{c}; context<AB, DD> e{d}; e = d; return e.template get<dA>(); }()), c.template get<dA>(), const context<AB, DD>& c)

// ---- the event loop of a context
#define LOOPS(name, make, ...) \
    void l_##name##_post(std::function<void()> w, __VA_ARGS__) { make.loop().post(w); } \
    void l_##name##_async(std::function<void()> w, __VA_ARGS__) { make.loop().async(w); } \
    void l_##name##_finish(std::function<void()> w, __VA_ARGS__) { make.loop().finish(); } \
    void l_##name##_pause(std::function<void()> w, __VA_ARGS__) { make.loop().pause(); } \
    void l_##name##_resume(std::function<void()> w, __VA_ARGS__) { make.loop().resume(); }
LOOPS(made, context<A>(f, l, {}), Disp f, Loop& l)
LOOPS(copied, context<A>(context<A>(f, l, {})), Disp f, Loop& l)
LOOPS(converted, context<A>(context<AB>(f, l, {})), DispV f, Loop& l)
LOOPS(converted_with, (context<A>(context<AB>(f, l, {}), k)), DispV f, Loop& l, Conv k)
LOOPS(fewer_deps, (context<A, lager::deps<dB&>>(context<A, DD>(f, l, DD::with(x, y)))), Disp f, Loop& l, dA x, dB& y)
LOOPS(no_actions, (context<void, lager::deps<dB&>>(context<A, DD>(f, l, DD::with(x, y)))), Disp f, Loop& l, dA x, dB& y)
}

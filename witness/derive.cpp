// Expressions that make derived readers and cursors (x_...) next to what their
// value must be in terms of the sources (v_...), and writes through them (w_...)
// next to what the sources must receive (s_...).
#include "first.hpp"
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/reader.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>

#include "opaque.hpp"

namespace W {

using Get   = Fn<U, const T&>;
using Set   = Fn<T, T, U>;
using GetUX = Fn<X, const U&>;
using SetUX = Fn<U, U, X>;
using Get2  = Fn<X, const std::tuple<T, U>&>;
using Set2  = Fn<std::tuple<T, U>, std::tuple<T, U>, X>;
using Map   = Fn<U, const T&>;
using MapUX = Fn<X, const U&>;
using Map2  = Fn<X, const T&, const U&>;
using Upd   = Fn<T, const T&, const U&>;
using Upd2  = Fn<std::tuple<T, U>, const std::tuple<T, U>&, const X&>;
using Setter = Fn<void, const T&>;
using MapXU = Fn<U, const X&>;
using MapUT = Fn<T, const U&>;

struct S
{
    T t;
    U u;
    bool operator==(const S&) const;
};

template <typename H>
decltype(auto) cur(const H& h)
{
    return lager::detail::access::node(h)->current();
}

template <typename H>
decltype(auto) fresh(const H& h)
{
    auto n = lager::detail::access::node(h);
    n->refresh();
    return n->current();
}

// --- one source
auto x_zoom_r(lager::reader<T> a, Get g, Set s) { return a.zoom(lager::lenses::getset(g, s)).make(); }
auto v_zoom_r(lager::reader<T> a, Get g, Set s) { return g(cur(a)); }
auto x_zoom_c(lager::cursor<T> a, Get g, Set s) { return a.zoom(lager::lenses::getset(g, s)).make(); }
auto v_zoom_c(lager::cursor<T> a, Get g, Set s) { return g(cur(a)); }
lager::reader<U> x_zoom_conv(lager::cursor<T> a, Get g, Set s) { return a.zoom(lager::lenses::getset(g, s)); }
auto v_zoom_conv(lager::cursor<T> a, Get g, Set s) { return g(cur(a)); }
lager::cursor<U> x_zoom_convc(lager::cursor<T> a, Get g, Set s) { return a.zoom(lager::lenses::getset(g, s)); }
auto v_zoom_convc(lager::cursor<T> a, Get g, Set s) { return g(cur(a)); }
auto x_zoomzoom(lager::cursor<T> a, Get g, Set s, GetUX h, SetUX t)
{
    return a.zoom(lager::lenses::getset(g, s)).zoom(lager::lenses::getset(h, t)).make();
}
auto v_zoomzoom(lager::cursor<T> a, Get g, Set s, GetUX h, SetUX t) { return h(g(cur(a))); }
auto x_zoommap(lager::cursor<T> a, Get g, Set s, MapUX m)
{
    return a.zoom(lager::lenses::getset(g, s)).xform(zug::map(m)).make();
}
auto v_zoommap(lager::cursor<T> a, Get g, Set s, MapUX m) { return m(g(cur(a))); }
auto x_map_r(lager::reader<T> a, Map m) { return a.map(m).make(); }
auto v_map_r(lager::reader<T> a, Map m) { return m(cur(a)); }
auto x_xform_r(lager::reader<T> a, Map m) { return a.xform(zug::map(m)).make(); }
auto v_xform_r(lager::reader<T> a, Map m) { return m(cur(a)); }
auto x_xformxform(lager::reader<T> a, Map m, MapUX k) { return a.xform(zug::map(m)).xform(zug::map(k)).make(); }
auto v_xformxform(lager::reader<T> a, Map m, MapUX k) { return k(m(cur(a))); }
auto x_xformzoom(lager::reader<T> a, Map m, GetUX h, SetUX t)
{
    return a.xform(zug::map(m)).zoom(lager::lenses::getset(h, t)).make();
}
auto v_xformzoom(lager::reader<T> a, Map m, GetUX h, SetUX t) { return h(m(cur(a))); }
auto x_xform_c(lager::cursor<T> a, Map m, Upd u) { return a.xform(zug::map(m), lager::update(u)).make(); }
auto v_xform_c(lager::cursor<T> a, Map m, Upd u) { return m(cur(a)); }
auto x_wxform_xform(lager::cursor<T> a, Map m, Upd u, MapUX k)
{
    return a.xform(zug::map(m), lager::update(u)).xform(zug::map(k)).make();
}
auto v_wxform_xform(lager::cursor<T> a, Map m, Upd u, MapUX k) { return k(m(cur(a))); }
auto x_wxform_wxform(lager::cursor<T> a, Map m, Upd u, MapUX k, MapXU back)
{
    return a.xform(zug::map(m), lager::update(u)).xform(zug::map(k), zug::map(back)).make();
}
auto v_wxform_wxform(lager::cursor<T> a, Map m, Upd u, MapUX k, MapXU back) { return k(m(cur(a))); }
auto x_attr(lager::cursor<S> a) { return a[&S::u].make(); }
auto v_attr(lager::cursor<S> a) { return cur(a).u; }
auto x_attr_r(lager::reader<S> a) { return a[&S::t].make(); }
auto v_attr_r(lager::reader<S> a) { return cur(a).t; }

// --- several sources
auto x_with_r(lager::reader<T> a, lager::reader<U> b) { return lager::with(a, b).make(); }
auto v_with_r(lager::reader<T> a, lager::reader<U> b) { return std::tuple<T, U>(cur(a), cur(b)); }
auto x_with_c(lager::cursor<T> a, lager::cursor<U> b) { return lager::with(a, b).make(); }
auto v_with_c(lager::cursor<T> a, lager::cursor<U> b) { return std::tuple<T, U>(cur(a), cur(b)); }
auto x_with_rc(lager::reader<T> a, lager::cursor<U> b) { return lager::with(a, b).make(); }
auto v_with_rc(lager::reader<T> a, lager::cursor<U> b) { return std::tuple<T, U>(cur(a), cur(b)); }
auto x_with3(lager::cursor<T> a, lager::cursor<U> b, lager::cursor<T> c) { return lager::with(a, b, c).make(); }
auto v_with3(lager::cursor<T> a, lager::cursor<U> b, lager::cursor<T> c)
{
    return std::tuple<T, U, T>(cur(a), cur(b), cur(c));
}
#define SIX_CURSORS lager::cursor<T> a, lager::cursor<U> b, lager::cursor<T> c, lager::cursor<X> d, lager::cursor<U> e, lager::cursor<T> f
using Six = std::tuple<T, U, T, X, U, T>;
auto x_with6(SIX_CURSORS) { return lager::with(a, b, c, d, e, f).make(); }
auto v_with6(SIX_CURSORS) { return Six(cur(a), cur(b), cur(c), cur(d), cur(e), cur(f)); }
auto x_with6_r(lager::reader<T> a, lager::reader<U> b, lager::reader<T> c, lager::reader<X> d, lager::reader<U> e, lager::reader<T> f)
{ return lager::with(a, b, c, d, e, f).make(); }
auto v_with6_r(lager::reader<T> a, lager::reader<U> b, lager::reader<T> c, lager::reader<X> d, lager::reader<U> e, lager::reader<T> f)
{ return Six(cur(a), cur(b), cur(c), cur(d), cur(e), cur(f)); }
auto x_with_map(lager::reader<T> a, lager::reader<U> b, Map2 m) { return lager::with(a, b).map(m).make(); }
auto v_with_map(lager::reader<T> a, lager::reader<U> b, Map2 m) { return m(cur(a), cur(b)); }
auto x_with_zoom(lager::cursor<T> a, lager::cursor<U> b, Get2 g, Set2 s)
{
    return lager::with(a, b).zoom(lager::lenses::getset(g, s)).make();
}
auto v_with_zoom(lager::cursor<T> a, lager::cursor<U> b, Get2 g, Set2 s)
{
    return g(std::tuple<T, U>(cur(a), cur(b)));
}
auto x_with_zoom_map(lager::cursor<T> a, lager::cursor<U> b, Get2 g, Set2 s, MapXU m)
{
    return lager::with(a, b).zoom(lager::lenses::getset(g, s)).xform(zug::map(m)).make();
}
auto v_with_zoom_map(lager::cursor<T> a, lager::cursor<U> b, Get2 g, Set2 s, MapXU m)
{
    return m(g(std::tuple<T, U>(cur(a), cur(b))));
}
auto x_with_nested(lager::cursor<T> a, lager::cursor<T> b, Get g, Set s)
{
    return lager::with(a, b.zoom(lager::lenses::getset(g, s))).make();
}
auto v_with_nested(lager::cursor<T> a, lager::cursor<T> b, Get g, Set s) { return std::tuple<T, U>(cur(a), g(cur(b))); }
auto x_with_wxform(lager::cursor<T> a, lager::cursor<U> b, Map2 m, Upd2 u)
{
    return lager::with(a, b).xform(zug::map(m), lager::update(u)).make();
}
auto v_with_wxform(lager::cursor<T> a, lager::cursor<U> b, Map2 m, Upd2 u) { return m(cur(a), cur(b)); }

// --- sources handed over, expressions on expressions, conversions of expressions
auto x_zoom_rv(lager::cursor<T> a, Get g, Set s) { return std::move(a).zoom(lager::lenses::getset(g, s)).make(); }
auto v_zoom_rv(lager::cursor<T> a, Get g, Set s) { return g(cur(a)); }
auto x_map_rv(lager::reader<T> a, Map m) { return std::move(a).map(m).make(); }
auto v_map_rv(lager::reader<T> a, Map m) { return m(cur(a)); }
auto x_with_rv(lager::cursor<T> a, lager::cursor<U> b) { return lager::with(std::move(a), std::move(b)).make(); }
auto v_with_rv(lager::cursor<T> a, lager::cursor<U> b) { return std::tuple<T, U>(cur(a), cur(b)); }
auto x_with_rrv(lager::reader<T> a, lager::reader<U> b) { return lager::with(std::move(a), std::move(b)).make(); }
auto v_with_rrv(lager::reader<T> a, lager::reader<U> b) { return std::tuple<T, U>(cur(a), cur(b)); }
lager::reader<U> x_map_c(lager::cursor<T> a, Map m) { return a.map(m); }
auto v_map_c(lager::cursor<T> a, Map m) { return m(cur(a)); }
lager::reader<X> x_mapmap(lager::cursor<T> a, Map m, MapUX k) { return a.map(m).map(k); }
auto v_mapmap(lager::cursor<T> a, Map m, MapUX k) { return k(m(cur(a))); }
lager::reader<U> x_zoommapmap(lager::cursor<T> a, Get g, Set s, MapUX m, MapXU k)
{
    return a.zoom(lager::lenses::getset(g, s)).map(m).map(k);
}
auto v_zoommapmap(lager::cursor<T> a, Get g, Set s, MapUX m, MapXU k) { return k(m(g(cur(a)))); }
lager::cursor<X> x_wxform_zoom(lager::cursor<T> a, Map m, Upd u, GetUX h, SetUX t)
{
    return a.xform(zug::map(m), lager::update(u)).zoom(lager::lenses::getset(h, t));
}
auto v_wxform_zoom(lager::cursor<T> a, Map m, Upd u, GetUX h, SetUX t) { return h(m(cur(a))); }
lager::cursor<X> x_zoom_wxform(lager::cursor<T> a, Get g, Set s, MapUX k, MapXU back)
{
    return a.zoom(lager::lenses::getset(g, s)).xform(zug::map(k), zug::map(back));
}
auto v_zoom_wxform(lager::cursor<T> a, Get g, Set s, MapUX k, MapXU back) { return k(g(cur(a))); }
lager::reader<std::tuple<T, U>> x_with_conv(lager::cursor<T> a, lager::cursor<U> b) { return lager::with(a, b); }
auto v_with_conv(lager::cursor<T> a, lager::cursor<U> b) { return std::tuple<T, U>(cur(a), cur(b)); }
lager::cursor<std::tuple<T, U>> x_with_convc(lager::cursor<T> a, lager::cursor<U> b) { return lager::with(a, b); }
auto v_with_convc(lager::cursor<T> a, lager::cursor<U> b) { return std::tuple<T, U>(cur(a), cur(b)); }
lager::reader<X> x_with_xform_conv(lager::cursor<T> a, lager::cursor<U> b, Map2 m) { return lager::with(a, b).xform(zug::map(m)); }
auto v_with_xform_conv(lager::cursor<T> a, lager::cursor<U> b, Map2 m) { return m(cur(a), cur(b)); }
auto x_with_exprs(lager::reader<T> a, lager::cursor<T> b, Map m, Get g, Set s)
{
    return lager::with(a.map(m), b.zoom(lager::lenses::getset(g, s))).make();
}
auto v_with_exprs(lager::reader<T> a, lager::cursor<T> b, Map m, Get g, Set s) { return std::tuple<U, U>(m(cur(a)), g(cur(b))); }
auto x_with_with(lager::reader<T> a, lager::reader<U> b, lager::reader<X> c) { return lager::with(lager::with(a, b), c).make(); }
auto v_with_with(lager::reader<T> a, lager::reader<U> b, lager::reader<X> c)
{
    return std::tuple<std::tuple<T, U>, X>(std::tuple<T, U>(cur(a), cur(b)), cur(c));
}
auto x_expr_setter(lager::reader<T> a, Get g, Set s, Fn<void, const U&> f) { return a.zoom(lager::lenses::getset(g, s)).setter(f); }
auto v_expr_setter(lager::reader<T> a, Get g, Set s, Fn<void, const U&> f) { return g(cur(a)); }

// --- setters
auto x_setter(lager::reader<T> a, Setter f) { return a.setter(f); }
auto v_setter(lager::reader<T> a, Setter f) { return cur(a); }
auto x_setter_auto(lager::reader<T> a, Setter f) { return a.setter<lager::automatic_tag>(f); }
auto v_setter_auto(lager::reader<T> a, Setter f) { return cur(a); }
auto x_with_setter(lager::reader<T> a, Setter f) { return lager::with_setter(a, f); }
auto v_with_setter(lager::reader<T> a, Setter f) { return cur(a); }
auto x_map_setter(lager::reader<U> a, MapUT m, Setter f) { return a.map(m).setter(f); }
auto v_map_setter(lager::reader<U> a, MapUT m, Setter f) { return m(cur(a)); }

// --- writes: what each source must receive
void w_zoom(lager::cursor<T> a, Get g, Set s, U u) { a.zoom(lager::lenses::getset(g, s)).make().set(u); }
auto s_zoom(lager::cursor<T> a, Get g, Set s, U u) { return std::make_tuple(s(fresh(a), u)); }
void w_zoom_mv(lager::cursor<T> a, Get g, Set s, U u) { a.zoom(lager::lenses::getset(g, s)).make().set(std::move(u)); }
auto s_zoom_mv(lager::cursor<T> a, Get g, Set s, U u) { return std::make_tuple(s(fresh(a), u)); }
void w_attr(lager::cursor<S> a, U u) { a[&S::u].make().set(u); }
auto s_attr(lager::cursor<S> a, U u)
{
    S x = fresh(a);
    x.u = u;
    return std::make_tuple(x);
}
void w_attr_mv(lager::cursor<S> a, U u) { a[&S::u].make().set(std::move(u)); }
auto s_attr_mv(lager::cursor<S> a, U u)
{
    S x = fresh(a);
    x.u = u;
    return std::make_tuple(x);
}
void w_xform(lager::cursor<T> a, Map m, Upd f, U u) { a.xform(zug::map(m), lager::update(f)).make().set(u); }
auto s_xform(lager::cursor<T> a, Map m, Upd f, U u) { return std::make_tuple(f(fresh(a), u)); }
void w_xform_map(lager::cursor<T> a, Map m, MapUT f, U u) { a.xform(zug::map(m), zug::map(f)).make().set(u); }
auto s_xform_map(lager::cursor<T> a, Map m, MapUT f, U u) { return std::make_tuple(f(u)); }
void w_wxform_wxform(lager::cursor<T> a, Map m, Upd f, MapUX k, MapXU back, X x)
{
    a.xform(zug::map(m), lager::update(f)).xform(zug::map(k), zug::map(back)).make().set(x);
}
auto s_wxform_wxform(lager::cursor<T> a, Map m, Upd f, MapUX k, MapXU back, X x)
{
    return std::make_tuple(f(fresh(a), back(x)));
}
void w_with(lager::cursor<T> a, lager::cursor<U> b, T t, U u) { lager::with(a, b).make().set(std::tuple<T, U>(t, u)); }
auto s_with(lager::cursor<T> a, lager::cursor<U> b, T t, U u) { return std::make_tuple(t, u); }
void w_with3(lager::cursor<T> a, lager::cursor<U> b, lager::cursor<T> c, std::tuple<T, U, T> v)
{
    lager::with(a, b, c).make().set(v);
}
auto s_with3(lager::cursor<T> a, lager::cursor<U> b, lager::cursor<T> c, std::tuple<T, U, T> v) { return v; }
auto use_with6(SIX_CURSORS) { auto z = lager::with(a, b, c, d, e, f).make(); z.get(); return cur(z); }
void w_with6(SIX_CURSORS, Six v) { lager::with(a, b, c, d, e, f).make().set(v); }
auto s_with6(SIX_CURSORS, Six v) { return v; }
void w_with_zoom(lager::cursor<T> a, lager::cursor<U> b, Get2 g, Set2 s, X x)
{
    lager::with(a, b).zoom(lager::lenses::getset(g, s)).make().set(x);
}
auto s_with_zoom(lager::cursor<T> a, lager::cursor<U> b, Get2 g, Set2 s, X x)
{
    decltype(auto) p = fresh(a);
    decltype(auto) q = fresh(b);
    return s(std::tuple<T, U>(p, q), x);
}
void w_with_wxform(lager::cursor<T> a, lager::cursor<U> b, Map2 m, Upd2 u, X x)
{
    lager::with(a, b).xform(zug::map(m), lager::update(u)).make().set(x);
}
auto s_with_wxform(lager::cursor<T> a, lager::cursor<U> b, Map2 m, Upd2 u, X x)
{
    decltype(auto) p = fresh(a);
    decltype(auto) q = fresh(b);
    return u(std::tuple<T, U>(p, q), x);
}

// through writers, and through expressions on expressions
void w_writer(lager::cursor<T> a, T t) { lager::writer<T> w{a}; w.set(t); }
auto s_writer(lager::cursor<T> a, T t) { return std::make_tuple(t); }
void w_writer_moved(lager::cursor<T> a, T t)
{
    lager::writer<T> w{std::move(a)};
    lager::writer<T> w2{w};
    lager::writer<T> w3;
    w3 = std::move(w2);
    w3.set(std::move(t));
}
auto s_writer_moved(lager::cursor<T> a, T t) { return std::make_tuple(t); }
void w_writer_zoom(lager::cursor<T> a, Get g, Set s, U u) { lager::writer<T>{a}.zoom(lager::lenses::getset(g, s)).make().set(u); }
auto s_writer_zoom(lager::cursor<T> a, Get g, Set s, U u) { return std::make_tuple(s(fresh(a), u)); }
void w_writer_attr(lager::cursor<S> a, U u) { lager::writer<S> w{a}; w[&S::u].make().set(u); }
auto s_writer_attr(lager::cursor<S> a, U u)
{
    S x = fresh(a);
    x.u = u;
    return std::make_tuple(x);
}
void w_writer_with(lager::cursor<T> a, lager::cursor<U> b, T t, U u)
{
    lager::writer<T> p{a};
    lager::writer<U> q{b};
    lager::with(p, q).make().set(std::tuple<T, U>(t, u));
}
auto s_writer_with(lager::cursor<T> a, lager::cursor<U> b, T t, U u) { return std::make_tuple(t, u); }
void w_writer_with_rv(lager::cursor<T> a, lager::cursor<U> b, T t, U u)
{
    lager::with(lager::writer<T>{a}, lager::writer<U>{b}).make().set(std::tuple<T, U>(t, u));
}
auto s_writer_with_rv(lager::cursor<T> a, lager::cursor<U> b, T t, U u) { return std::make_tuple(t, u); }
void w_writer_zoom_conv(lager::cursor<T> a, Get g, Set s, U u)
{
    lager::writer<U> w = lager::writer<T>{a}.zoom(lager::lenses::getset(g, s));
    w.set(u);
}
auto s_writer_zoom_conv(lager::cursor<T> a, Get g, Set s, U u) { return std::make_tuple(s(fresh(a), u)); }
void w_zoom_as_writer(lager::cursor<T> a, Get g, Set s, U u)
{
    lager::writer<U> w = a.zoom(lager::lenses::getset(g, s));
    w.set(u);
}
auto s_zoom_as_writer(lager::cursor<T> a, Get g, Set s, U u) { return std::make_tuple(s(fresh(a), u)); }
void w_with_as_writer(lager::cursor<T> a, lager::cursor<U> b, T t, U u)
{
    lager::writer<std::tuple<T, U>> w = lager::with(a, b);
    w.set(std::tuple<T, U>(t, u));
}
auto s_with_as_writer(lager::cursor<T> a, lager::cursor<U> b, T t, U u) { return std::make_tuple(t, u); }
void w_wxform_zoom(lager::cursor<T> a, Map m, MapUT back, GetUX h, SetUX t, X x)
{
    a.xform(zug::map(m), zug::map(back)).zoom(lager::lenses::getset(h, t)).make().set(x);
}
auto s_wxform_zoom(lager::cursor<T> a, Map m, MapUT back, GetUX h, SetUX t, X x)
{
    return std::make_tuple(back(t(m(fresh(a)), x)));
}
void w_zoom_wxform(lager::cursor<T> a, Get g, Set s, MapUX k, MapXU back, X x)
{
    a.zoom(lager::lenses::getset(g, s)).xform(zug::map(k), zug::map(back)).make().set(x);
}
auto s_zoom_wxform(lager::cursor<T> a, Get g, Set s, MapUX k, MapXU back, X x) { return std::make_tuple(s(fresh(a), back(x))); }
void w_zoomzoom(lager::cursor<T> a, Get g, Set s, GetUX h, SetUX t, X x)
{
    a.zoom(lager::lenses::getset(g, s)).zoom(lager::lenses::getset(h, t)).make().set(x);
}
auto s_zoomzoom(lager::cursor<T> a, Get g, Set s, GetUX h, SetUX t, X x)
{
    decltype(auto) p = fresh(a);
    return std::make_tuple(s(p, t(g(p), x)));
}
}

// every member of the accessors, for every value type used above
template class lager::detail::observable_reader_node<W::T>;
template class lager::detail::observable_reader_node<W::U>;
template class lager::detail::observable_reader_node<W::X>;
template class lager::detail::observable_reader_node<W::S>;
template class lager::detail::observable_reader_node<std::tuple<W::T, W::U>>;
template class lager::detail::observable_reader_node<std::tuple<W::T, W::U, W::T>>;
template class lager::detail::observable_reader_node<std::tuple<W::U, W::U>>;
template class lager::detail::observable_reader_node<std::tuple<std::tuple<W::T, W::U>, W::X>>;

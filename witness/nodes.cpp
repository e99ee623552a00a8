// Every kind of node, reader, writer and cursor over opaque values.
#include "first.hpp"
#include <lager/commit.hpp>
#include <lager/constant.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>

#include "opaque.hpp"

namespace W {

using Get  = Fn<U, const T&>;
using Set  = Fn<T, T, U>;
using Get2 = Fn<X, const std::tuple<T, U>&>;
using Set2 = Fn<std::tuple<T, U>, std::tuple<T, U>, X>;
using Map  = Fn<U, const T&>;
using Map2 = Fn<X, const T&, const U&>;
using Pred = Fn<bool, const T&>;
using Upd  = Fn<T, const T&, const U&>;
using Upd2 = Fn<std::tuple<T, U>, const std::tuple<T, U>&, const X&>;
using Sense = Fn<T>;
using Setter = Fn<void, const T&>;
using Change = Fn<T, const T&>;
using ChangeU = Fn<U, const U&>;
using Cb = Fn<void, const T&>;

// --- roots
void roots(T t, N n, Sense sense)
{
    lager::state<T> s{t};
    lager::state<T, lager::automatic_tag> a{t};
    lager::state<N> ns{n};
    lager::state<N, lager::automatic_tag> na{n};
    auto se = lager::make_sensor(sense);
    auto co = lager::make_constant(t);
    s.set(t);
    s.set(std::move(t));
    a.set(t);
    a.set(std::move(t));
    ns.set(n);
    na.set(n);
    (void) se.get();
    (void) co.get();
    lager::commit(s);
    lager::commit(s, a);
    lager::commit(s, a, se);
}

// --- derived from one
void lens1(lager::cursor<T> c, lager::reader<T> r, Get g, Set s, T t, U u)
{
    auto l = lager::lenses::getset(g, s);
    auto z = c.zoom(l).make();
    z.set(u);
    z.set(std::move(u));
    auto zr = r.zoom(l).make();
    (void) zr.get();
}

// --- derived from two
void lens2(lager::cursor<T> c, lager::cursor<U> d, lager::reader<T> r, Get2 g, Set2 s, X x)
{
    auto l = lager::lenses::getset(g, s);
    auto z = lager::with(c, d).zoom(l).make();
    z.set(x);
    z.set(std::move(x));
    auto zr = lager::with(r, d).zoom(l).make();
    (void) zr.get();
}

void merge2(lager::cursor<T> c, lager::cursor<U> d, lager::reader<T> r, std::tuple<T, U> x)
{
    auto z = lager::with(c, d).make();
    z.set(x);
    z.set(std::move(x));
    auto zr = lager::with(r, d).make();
    (void) zr.get();
    auto m3 = lager::with(c, d, c).make();
    (void) m3.get();
}

void xform1(lager::cursor<T> c, lager::reader<T> r, Map m, Upd w, Pred p, T t, U u)
{
    auto z = c.xform(zug::map(m), lager::update(w)).make();
    z.set(u);
    z.set(std::move(u));
    auto zr = r.xform(zug::map(m)).make();
    auto zf = r.xform(zug::filter(p)).make();
    (void) zr.get();
    (void) zf.get();
    auto mm = r.map(m).make();
    auto ff = c.filter(p).make();
}

void xform2(lager::cursor<T> c, lager::cursor<U> d, lager::reader<T> r, Map2 m, Upd2 w, X x)
{
    auto z = lager::with(c, d).xform(zug::map(m), lager::update(w)).make();
    z.set(x);
    z.set(std::move(x));
    auto zr = lager::with(r, d).xform(zug::map(m)).make();
    (void) zr.get();
}

// --- setters
void setters(lager::reader<T> r, Setter f, T t)
{
    auto c = r.setter(f);
    c.set(t);
    c.set(std::move(t));
    auto a = r.setter<lager::automatic_tag>(f);
    a.set(t);
    a.set(std::move(t));
}

// --- API on handles
void api(lager::cursor<T> c, lager::reader<T> r, lager::writer<T> w, lager::state<T>& s, Change f, T t, Cb cb)
{
    c.set(t);
    c.set(std::move(t));
    c.update(f);
    w.set(t);
    w.set(std::move(t));
    w.update(f);
    s.set(t);
    s.update(f);
    (void) c.get();
    (void) *c;
    (void) r.get();
    (void) *r;
    (void) s.get();
    (void) *s;
    lager::watch(c, cb);
    lager::watch(r, cb);
    lager::watch(s, cb);
    r.bind(cb);
    c.bind(cb);
    r.nudge();
    r.unbind();
    lager::reader<T> r1{c};
    lager::reader<T> r2{r};
    lager::reader<T> r3{s};
    lager::writer<T> w1{c};
    lager::cursor<T> c1{c};
    lager::cursor<T> c2{s};
    r1 = r2;
    r1 = std::move(r2);
    r1 = c;
    c1 = c2;
    c1 = std::move(c2);
}
}

// every member of the accessors, for every value type used above
template class lager::detail::observable_reader_node<W::T>;
template class lager::detail::observable_reader_node<W::U>;
template class lager::detail::observable_reader_node<W::X>;
template class lager::detail::observable_reader_node<W::N>;
template class lager::detail::observable_reader_node<std::tuple<W::T, W::U>>;
template class lager::detail::observable_reader_node<std::tuple<W::T, W::U, W::T>>;

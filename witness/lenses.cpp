// Lenses and what they should mean, written out in plain code.
#include "opaque.hpp"
#include "containers.hpp"
#include <lager/lens.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/lenses/unbox.hpp>
#include <lager/lenses/variant.hpp>
#include <optional>
#include <tuple>
#include <variant>

namespace W {
namespace L = lager::lenses;
struct Out { U u; In in; T t; std::optional<In> o; };

// one lens over the whole, the part and the key or default of the oracle
#define LENS_(tag, name, Whole, Part, lens, ...)                                    \
    Part tag##view_##name##_c(const Whole& w __VA_ARGS__) { return lager::view(lens, w); }   \
    Part tag##view_##name##_l(Whole& w __VA_ARGS__) { return lager::view(lens, w); }         \
    Part tag##view_##name##_r(Whole&& w __VA_ARGS__) { return lager::view(lens, std::move(w)); } \
    Whole tag##set_##name##_cc(const Whole& w, const Part& p __VA_ARGS__) { return lager::set(lens, w, p); } \
    Whole tag##set_##name##_lc(Whole& w, const Part& p __VA_ARGS__) { return lager::set(lens, w, p); } \
    Whole tag##set_##name##_rc(Whole&& w, const Part& p __VA_ARGS__) { return lager::set(lens, std::move(w), p); } \
    Whole tag##set_##name##_cl(const Whole& w, Part& p __VA_ARGS__) { return lager::set(lens, w, p); } \
    Whole tag##set_##name##_rl(Whole&& w, Part& p __VA_ARGS__) { return lager::set(lens, std::move(w), p); } \
    Whole tag##set_##name##_cr(const Whole& w, Part&& p __VA_ARGS__) { return lager::set(lens, w, std::move(p)); } \
    Whole tag##set_##name##_rr(Whole&& w, Part&& p __VA_ARGS__) { return lager::set(lens, std::move(w), std::move(p)); } \
    Whole tag##over_##name##_c(const Whole& w, Fn<Part, Part>& f __VA_ARGS__) { return lager::over(lens, w, f); } \
    Whole tag##over_##name##_r(Whole&& w, Fn<Part, Part>& f __VA_ARGS__) { return lager::over(lens, std::move(w), f); }
#define COMMA ,
#define LENS(tag, name, Whole, Part, lens) LENS_(tag, name, Whole, Part, lens)
#define LENSK(tag, name, Whole, Part, Key, lens) LENS_(tag, name, Whole, Part, lens, COMMA const Key& k)

// --- C20: possibly absent parts
using MutKV = Mut<K, In>;
using MapKV = Map<K, In>;
using VecV = Vec<In>;
using MutVecV = MutVec<In>;
using TableKV = Table<K, In>;
using OptIn = std::optional<In>;
using OptT = std::optional<T>;
using OptOpt = std::optional<std::optional<T>>;
using Var = std::variant<T, In, X>;
using OptVar = std::optional<Var>;
using Nested = Map<K, MapKV>;
using Idx = unsigned long;
using Int = int;

LENSK(a_, at_mut, MutKV, OptIn, K, L::at(k))
OptIn oview_at_mut(const MutKV& w, const K& k) { if (w.count(k)) return w.at(k); return {}; }
MutKV oset_at_mut(const MutKV& w, const OptIn& p, const K& k) { MutKV r = w; if (p && w.count(k)) r.at(k) = *p; return r; }
LENSK(a_, at_mutvec, MutVecV, OptIn, Idx, L::at(k))
OptIn oview_at_mutvec(const MutVecV& w, const Idx& k) { if (k < w.size()) return w.at(k); return {}; }
MutVecV oset_at_mutvec(const MutVecV& w, const OptIn& p, const Idx& k) { MutVecV r = w; if (p && k < w.size()) r.at(k) = *p; return r; }
LENSK(a_, at_map, MapKV, OptIn, K, L::at(k))
OptIn oview_at_map(const MapKV& w, const K& k) { if (w.count(k)) return w.at(k); return {}; }
MapKV oset_at_map(const MapKV& w, const OptIn& p, const K& k) { if (p && w.count(k)) return w.set(k, *p); return w; }
LENSK(a_, at_vec, VecV, OptIn, Idx, L::at(k))
OptIn oview_at_vec(const VecV& w, const Idx& k) { if (k < w.size()) return w.at(k); return {}; }
VecV oset_at_vec(const VecV& w, const OptIn& p, const Idx& k) { if (p && k < w.size()) return w.set(k, *p); return w; }
LENSK(a_, at_table, TableKV, OptIn, K, L::at(k))
OptIn oview_at_table(const TableKV& w, const K& k) { if (w.count(k)) return w.at(k); return {}; }
TableKV oset_at_table(const TableKV& w, const OptIn& p, const K& k) { if (p && w.count(k)) return w.insert(*p); return w; }

LENSK(a_, ator_mut, MutKV, In, K, L::at_or(k))
In oview_ator_mut(const MutKV& w, const K& k) { if (w.count(k)) return w.at(k); return In{}; }
MutKV oset_ator_mut(const MutKV& w, const In& p, const K& k) { MutKV r = w; if (w.count(k)) r.at(k) = p; return r; }
LENSK(a_, ator_mutvec, MutVecV, In, Idx, L::at_or(k))
In oview_ator_mutvec(const MutVecV& w, const Idx& k) { if (k < w.size()) return w.at(k); return In{}; }
MutVecV oset_ator_mutvec(const MutVecV& w, const In& p, const Idx& k) { MutVecV r = w; if (k < w.size()) r.at(k) = p; return r; }
LENSK(a_, ator_map, MapKV, In, K, L::at_or(k))
In oview_ator_map(const MapKV& w, const K& k) { if (w.count(k)) return w.at(k); return In{}; }
MapKV oset_ator_map(const MapKV& w, const In& p, const K& k) { if (w.count(k)) return w.set(k, p); return w; }
LENSK(a_, ator_vec, VecV, In, Idx, L::at_or(k))
In oview_ator_vec(const VecV& w, const Idx& k) { if (k < w.size()) return w.at(k); return In{}; }
VecV oset_ator_vec(const VecV& w, const In& p, const Idx& k) { if (k < w.size()) return w.set(k, p); return w; }
struct KD { K k; In d; };
LENSK(a_, atord_mut, MutKV, In, KD, L::at_or(k.k, k.d))
In oview_atord_mut(const MutKV& w, const KD& k) { if (w.count(k.k)) return w.at(k.k); return k.d; }
MutKV oset_atord_mut(const MutKV& w, const In& p, const KD& k) { MutKV r = w; if (w.count(k.k)) r.at(k.k) = p; return r; }
LENSK(a_, atord_map, MapKV, In, KD, L::at_or(k.k, k.d))
In oview_atord_map(const MapKV& w, const KD& k) { if (w.count(k.k)) return w.at(k.k); return k.d; }
MapKV oset_atord_map(const MapKV& w, const In& p, const KD& k) { if (w.count(k.k)) return w.set(k.k, p); return w; }
struct ID { Idx k; In d; };
LENSK(a_, atord_vec, VecV, In, ID, L::at_or(k.k, k.d))
In oview_atord_vec(const VecV& w, const ID& k) { if (k.k < w.size()) return w.at(k.k); return k.d; }
VecV oset_atord_vec(const VecV& w, const In& p, const ID& k) { if (k.k < w.size()) return w.set(k.k, p); return w; }

LENS(a_, map_opt, OptIn, OptT, L::map_opt(L::attr(&In::a)))
OptT oview_map_opt(const OptIn& w) { if (w) return w->a; return {}; }
OptIn oset_map_opt(const OptIn& w, const OptT& p) { OptIn r = w; if (w && p) r->a = *p; return r; }
LENS(a_, with_opt, OptIn, OptT, L::with_opt(L::attr(&In::a)))
OptT oview_with_opt(const OptIn& w) { if (w) return w->a; return {}; }
OptIn oset_with_opt(const OptIn& w, const OptT& p) { OptIn r = w; if (w && p) r->a = *p; return r; }
struct OutO { U u; OptT o; };
using OptMapKV = std::optional<MapKV>;
LENSK(a_, bind_opt, OptMapKV, OptIn, K, L::bind_opt(L::at(k)))
OptIn oview_bind_opt(const std::optional<MapKV>& w, const K& k) { if (w && w->count(k)) return w->at(k); return {}; }
std::optional<MapKV> oset_bind_opt(const std::optional<MapKV>& w, const OptIn& p, const K& k)
{ if (w && p && w->count(k)) return w->set(k, *p); return w; }
LENSK(a_, with_opt_at, OptMapKV, OptIn, K, L::with_opt(L::at(k)))
OptIn oview_with_opt_at(const std::optional<MapKV>& w, const K& k) { if (w && w->count(k)) return w->at(k); return {}; }
std::optional<MapKV> oset_with_opt_at(const std::optional<MapKV>& w, const OptIn& p, const K& k)
{ if (w && p && w->count(k)) return w->set(k, *p); return w; }
LENS(a_, value_or_d, OptIn, In, L::or_default)
In oview_value_or_d(const OptIn& w) { if (w) return *w; return In{}; }
OptIn oset_value_or_d(const OptIn&, const In& p) { return p; }
LENSK(a_, value_or, OptIn, In, In, L::value_or(k))
In oview_value_or(const OptIn& w, const In& k) { if (w) return *w; return k; }
OptIn oset_value_or(const OptIn&, const In& p, const In&) { return p; }
LENS(a_, alternative, Var, OptIn, L::alternative<In>)
OptIn oview_alternative(const Var& w) { if (std::holds_alternative<In>(w)) return std::get<In>(w); return {}; }
Var oset_alternative(const Var& w, const OptIn& p) { if (p && std::holds_alternative<In>(w)) return *p; return w; }
LENS(a_, alternative_t, Var, OptT, L::alternative<T>)
OptT oview_alternative_t(const Var& w) { if (std::holds_alternative<T>(w)) return std::get<T>(w); return {}; }
Var oset_alternative_t(const Var& w, const OptT& p) { if (p && std::holds_alternative<T>(w)) return *p; return w; }
LENS(a_, unbox, Box, In, L::unbox)
In oview_unbox(const Box& w) { return w.get(); }
Box oset_unbox(const Box&, const In& p) { return Box{p}; }
LENS(a_, unbox_attr, Box, T, L::unbox | L::attr(&In::a))
T oview_unbox_attr(const Box& w) { return w.get().a; }
Box oset_unbox_attr(const Box& w, const T& p) { In r = w.get(); r.a = p; return Box{r}; }
LENS(a_, force_opt, In, OptIn, L::force_opt)
OptIn oview_force_opt(const In& w) { return w; }
In oset_force_opt(const In& w, const OptIn& p) { if (p) return *p; return w; }
LENS(a_, force_attr, In, OptT, L::attr(&In::a) | L::force_opt)
OptT oview_force_attr(const In& w) { return w.a; }
In oset_force_attr(const In& w, const OptT& p) { In r = w; if (p) r.a = *p; return r; }
// absence at each level of a composition
LENSK(a_, at_attr, MapKV, OptT, K, L::at(k) | L::with_opt(L::attr(&In::a)))
OptT oview_at_attr(const MapKV& w, const K& k) { if (w.count(k)) return w.at(k).a; return {}; }
MapKV oset_at_attr(const MapKV& w, const OptT& p, const K& k)
{ if (p && w.count(k)) { In r = w.at(k); r.a = *p; return w.set(k, r); } return w; }
LENSK(a_, mut_attr, MutKV, OptT, K, L::at(k) | L::with_opt(L::attr(&In::a)))
OptT oview_mut_attr(const MutKV& w, const K& k) { if (w.count(k)) return w.at(k).a; return {}; }
MutKV oset_mut_attr(const MutKV& w, const OptT& p, const K& k)
{ MutKV r = w; if (p && w.count(k)) r.at(k).a = *p; return r; }
struct KK { K i, j; };
LENSK(a_, at_at, Nested, OptIn, KK, L::at(k.i) | L::with_opt(L::at(k.j)))
OptIn oview_at_at(const Nested& w, const KK& k) { if (w.count(k.i) && w.at(k.i).count(k.j)) return w.at(k.i).at(k.j); return {}; }
Nested oset_at_at(const Nested& w, const OptIn& p, const KK& k)
{ if (p && w.count(k.i) && w.at(k.i).count(k.j)) return w.set(k.i, w.at(k.i).set(k.j, *p)); return w; }
LENS(a_, opt_member, Out, OptT, L::attr(&Out::o) | L::with_opt(L::attr(&In::a)))
OptT oview_opt_member(const Out& w) { if (w.o) return w.o->a; return {}; }
Out oset_opt_member(const Out& w, const OptT& p) { Out r = w; if (w.o && p) r.o->a = *p; return r; }
LENS(a_, alt_attr, Var, OptT, L::alternative<In> | L::with_opt(L::attr(&In::a)))
OptT oview_alt_attr(const Var& w) { if (std::holds_alternative<In>(w)) return std::get<In>(w).a; return {}; }
Var oset_alt_attr(const Var& w, const OptT& p)
{ if (p && std::holds_alternative<In>(w)) { In r = std::get<In>(w); r.a = *p; return r; } return w; }
LENSK(a_, at_or_attr, MapKV, T, K, L::at_or(k) | L::attr(&In::a))
T oview_at_or_attr(const MapKV& w, const K& k) { if (w.count(k)) return w.at(k).a; return In{}.a; }
MapKV oset_at_or_attr(const MapKV& w, const T& p, const K& k)
{ if (w.count(k)) { In r = w.at(k); r.a = p; return w.set(k, r); } return w; }
LENSK(a_, at_value_or, MapKV, In, K, L::at(k) | L::or_default)
In oview_at_value_or(const MapKV& w, const K& k) { if (w.count(k)) return w.at(k); return In{}; }
MapKV oset_at_value_or(const MapKV& w, const In& p, const K& k) { if (w.count(k)) return w.set(k, p); return w; }

// --- C21, C22: the focus and what is around it
#ifndef LAGER_NO_EXCEPTIONS
using Pair = std::pair<In, U>;
using Tup = std::tuple<In, In, In>;
using TupT = std::tuple<T, T, T>;
using Tup2 = std::tuple<In, In>;
using TupTU = std::tuple<T, U>;
using TupTUX = std::tuple<T, U, X>;
LENS(b_, attr, In, U, L::attr(&In::b))
U oview_attr(const In& w) { return w.b; }
In oset_attr(const In& w, const U& p) { In r = w; r.b = p; return r; }
LENS(b_, attr_first, Out, U, L::attr(&Out::u))
U oview_attr_first(const Out& w) { return w.u; }
Out oset_attr_first(const Out& w, const U& p) { Out r = w; r.u = p; return r; }
LENS(b_, attr_attr, Out, X, L::attr(&Out::in) | L::attr(&In::c))
X oview_attr_attr(const Out& w) { return w.in.c; }
Out oset_attr_attr(const Out& w, const X& p) { Out r = w; r.in.c = p; return r; }
struct Deep { T x; Out out; };
LENS(b_, attr3, Deep, T, L::attr(&Deep::out) | L::attr(&Out::in) | L::attr(&In::a))
T oview_attr3(const Deep& w) { return w.out.in.a; }
Deep oset_attr3(const Deep& w, const T& p) { Deep r = w; r.out.in.a = p; return r; }
LENS(b_, comp3, Deep, T, zug::comp(L::attr(&Deep::out), L::attr(&Out::in), L::attr(&In::a)))
T oview_comp3(const Deep& w) { return w.out.in.a; }
Deep oset_comp3(const Deep& w, const T& p) { Deep r = w; r.out.in.a = p; return r; }
LENS(b_, first, Pair, In, L::first)
In oview_first(const Pair& w) { return w.first; }
Pair oset_first(const Pair& w, const In& p) { Pair r = w; r.first = p; return r; }
LENS(b_, second, Pair, U, L::second)
U oview_second(const Pair& w) { return w.second; }
Pair oset_second(const Pair& w, const U& p) { Pair r = w; r.second = p; return r; }
LENS(b_, elem2, Tup, In, L::element<2>)
In oview_elem2(const Tup& w) { return std::get<2>(w); }
Tup oset_elem2(const Tup& w, const In& p) { Tup r = w; std::get<2>(r) = p; return r; }
LENS(b_, elem1_attr, Tup, T, L::element<1> | L::attr(&In::a))
T oview_elem1_attr(const Tup& w) { return std::get<1>(w).a; }
Tup oset_elem1_attr(const Tup& w, const T& p) { Tup r = w; std::get<1>(r).a = p; return r; }
LENS(b_, attrs, In, TupTUX, L::attr(&In::a, &In::b, &In::c))
TupTUX oview_attrs(const In& w) { return TupTUX{w.a, w.b, w.c}; }
In oset_attrs(const In& w, const TupTUX& p) { In r = w; r.a = std::get<0>(p); r.b = std::get<1>(p); r.c = std::get<2>(p); return r; }
LENS(b_, fan, Out, TupTU, L::fan(L::attr(&Out::in) | L::attr(&In::a), L::attr(&Out::u)))
TupTU oview_fan(const Out& w) { return TupTU{w.in.a, w.u}; }
Out oset_fan(const Out& w, const TupTU& p) { Out r = w; r.in.a = std::get<0>(p); r.u = std::get<1>(p); return r; }
LENS(b_, fan3, Out, TupTUX, L::fan(L::attr(&Out::t), L::attr(&Out::u), L::attr(&Out::in) | L::attr(&In::c)))
TupTUX oview_fan3(const Out& w) { return TupTUX{w.t, w.u, w.in.c}; }
Out oset_fan3(const Out& w, const TupTUX& p) { Out r = w; r.t = std::get<0>(p); r.u = std::get<1>(p); r.in.c = std::get<2>(p); return r; }
LENS(b_, zip, Tup2, TupTU, L::zip(L::attr(&In::a), L::attr(&In::b)))
TupTU oview_zip(const Tup2& w) { return TupTU{std::get<0>(w).a, std::get<1>(w).b}; }
Tup2 oset_zip(const Tup2& w, const TupTU& p) { Tup2 r = w; std::get<0>(r).a = std::get<0>(p); std::get<1>(r).b = std::get<1>(p); return r; }
using TupOI = std::tuple<In, Out, In>;
LENS(b_, zip3, TupOI, TupTUX, L::zip(L::attr(&In::a), L::attr(&Out::u), L::attr(&In::c)))
TupTUX oview_zip3(const TupOI& w) { return TupTUX{std::get<0>(w).a, std::get<1>(w).u, std::get<2>(w).c}; }
TupOI oset_zip3(const TupOI& w, const TupTUX& p)
{ TupOI r = w; std::get<0>(r).a = std::get<0>(p); std::get<1>(r).u = std::get<1>(p); std::get<2>(r).c = std::get<2>(p); return r; }
using Six = std::tuple<In, Out, In, Out, In, In>;
using SixP = std::tuple<T, U, X, T, U, T>;
LENS(b_, zip6, Six, SixP, L::zip(L::attr(&In::a), L::attr(&Out::u), L::attr(&In::c), L::attr(&Out::t), L::attr(&In::b), L::attr(&In::a)))
SixP oview_zip6(const Six& w)
{ return SixP{std::get<0>(w).a, std::get<1>(w).u, std::get<2>(w).c, std::get<3>(w).t, std::get<4>(w).b, std::get<5>(w).a}; }
Six oset_zip6(const Six& w, const SixP& p)
{
    Six r = w;
    std::get<0>(r).a = std::get<0>(p); std::get<1>(r).u = std::get<1>(p); std::get<2>(r).c = std::get<2>(p);
    std::get<3>(r).t = std::get<3>(p); std::get<4>(r).b = std::get<4>(p); std::get<5>(r).a = std::get<5>(p);
    return r;
}
using FiveP = std::tuple<T, U, X, T, U>;
LENS(b_, fan5, Out, FiveP, L::fan(L::attr(&Out::in) | L::attr(&In::a), L::attr(&Out::u), L::attr(&Out::in) | L::attr(&In::c), L::attr(&Out::t), L::attr(&Out::in) | L::attr(&In::b)))
FiveP oview_fan5(const Out& w) { return FiveP{w.in.a, w.u, w.in.c, w.t, w.in.b}; }
Out oset_fan5(const Out& w, const FiveP& p)
{ Out r = w; r.in.a = std::get<0>(p); r.u = std::get<1>(p); r.in.c = std::get<2>(p); r.t = std::get<3>(p); r.in.b = std::get<4>(p); return r; }
using OptTT = std::tuple<OptT, T>;
LENS(b_, zip_force, Tup2, OptTT, L::zip(L::attr(&In::a) | L::force_opt, L::attr(&In::a)))
OptTT oview_zip_force(const Tup2& w) { return OptTT{OptT{std::get<0>(w).a}, std::get<1>(w).a}; }
Tup2 oset_zip_force(const Tup2& w, const OptTT& p)
{ Tup2 r = w; if (std::get<0>(p)) std::get<0>(r).a = *std::get<0>(p); std::get<1>(r).a = std::get<1>(p); return r; }
using TupAt = std::tuple<MapKV, In>;
using TupAtP = std::tuple<OptIn, T>;
LENSK(b_, zip_at, TupAt, TupAtP, K, L::zip(L::at(k), L::attr(&In::a)))
TupAtP oview_zip_at(const TupAt& w, const K& k)
{ return TupAtP{std::get<0>(w).count(k) ? OptIn{std::get<0>(w).at(k)} : OptIn{}, std::get<1>(w).a}; }
TupAt oset_zip_at(const TupAt& w, const TupAtP& p, const K& k)
{ TupAt r = w; if (std::get<0>(p) && std::get<0>(w).count(k)) std::get<0>(r) = std::get<0>(w).set(k, *std::get<0>(p)); std::get<1>(r).a = std::get<1>(p); return r; }
using VarIn = std::tuple<Var, In>;
LENS(b_, zip_alt, VarIn, TupAtP, L::zip(L::alternative<In>, L::attr(&In::a)))
TupAtP oview_zip_alt(const VarIn& w)
{ return TupAtP{std::holds_alternative<In>(std::get<0>(w)) ? OptIn{std::get<In>(std::get<0>(w))} : OptIn{}, std::get<1>(w).a}; }
VarIn oset_zip_alt(const VarIn& w, const TupAtP& p)
{ VarIn r = w; if (std::get<0>(p) && std::holds_alternative<In>(std::get<0>(w))) std::get<0>(r) = *std::get<0>(p); std::get<1>(r).a = std::get<1>(p); return r; }
LENS(b_, attr_elem, Deep, TupTU, L::attr(&Deep::out) | L::fan(L::attr(&Out::t), L::attr(&Out::u)))
TupTU oview_attr_elem(const Deep& w) { return TupTU{w.out.t, w.out.u}; }
Deep oset_attr_elem(const Deep& w, const TupTU& p) { Deep r = w; r.out.t = std::get<0>(p); r.out.u = std::get<1>(p); return r; }
LENS(b_, identity, In, In, zug::identity)
In oview_identity(const In& w) { return w; }
In oset_identity(const In&, const In& p) { return p; }
// lenses made of a getter and a setter
struct get_ref { const T& operator()(const In& w) const; };
struct get_val { T operator()(In w) const; };
struct put { In operator()(In w, T p) const; };
struct GRef { get_ref g; put s; };
struct GVal { get_val g; put s; };
LENSK(b_, getset_ref, In, T, GRef, L::getset(k.g, k.s))
T oview_getset_ref(const In& w, const GRef& k) { return k.g(w); }
In oset_getset_ref(const In& w, const T& p, const GRef& k) { return k.s(w, p); }
LENSK(b_, getset_val, In, T, GVal, L::getset(k.g, k.s))
T oview_getset_val(const In& w, const GVal& k) { return k.g(w); }
In oset_getset_val(const In& w, const T& p, const GVal& k) { return k.s(w, p); }
LENSK(b_, getset_attr, Out, T, GVal, L::attr(&Out::in) | L::getset(k.g, k.s))
T oview_getset_attr(const Out& w, const GVal& k) { return k.g(w.in); }
Out oset_getset_attr(const Out& w, const T& p, const GVal& k) { Out r = w; r.in = k.s(w.in, p); return r; }
// type-erased lenses
LENS(b_, erased, Out, X, (lager::lens<Out, X>{L::attr(&Out::in) | L::attr(&In::c)}))
X oview_erased(const Out& w) { return w.in.c; }
Out oset_erased(const Out& w, const X& p) { Out r = w; r.in.c = p; return r; }
LENS(b_, erased_comp, Deep, U, (zug::comp(lager::lens<Deep, Out>{L::attr(&Deep::out)}, lager::lens<Out, U>{L::attr(&Out::u)})))
U oview_erased_comp(const Deep& w) { return w.out.u; }
Deep oset_erased_comp(const Deep& w, const U& p) { Deep r = w; r.out.u = p; return r; }
LENSK(b_, erased_at, MapKV, OptIn, K, (lager::lens<MapKV, OptIn>{L::at(k)}))
OptIn oview_erased_at(const MapKV& w, const K& k) { if (w.count(k)) return w.at(k); return {}; }
MapKV oset_erased_at(const MapKV& w, const OptIn& p, const K& k) { if (p && w.count(k)) return w.set(k, *p); return w; }
#endif
}

// Readers and cursors focused by key, member or lens with the index operator
// (k_...), what their value must be (v_...) and what a write must leave (s_...).
#include <lager/cursor.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/reader.hpp>
#include "containers.hpp"

namespace W {
using MapKV = Map<K, In>;
using MutKV = Mut<K, In>;
using Nested = Map<K, MapKV>;
using OptIn = std::optional<In>;
using OptT = std::optional<T>;
using OptMap = std::optional<MapKV>;
struct Own { MapKV m; OptIn o; In in; bool operator==(const Own&) const; };
using Idx = unsigned long;
using VecV = Vec<In>;
template <typename H>
decltype(auto) cur(const H& h) { return lager::detail::access::node(h)->current(); }
template <typename H>
decltype(auto) fresh(const H& h)
{
    auto n = lager::detail::access::node(h);
    n->refresh();
    return n->current();
}
#define KEYED(name, Whole, Part, Key, expr)                                    \
    auto kr_##name(lager::reader<Whole> a, const Key& k) { return lager::reader<Part>{a expr}; } \
    auto kc_##name(lager::cursor<Whole> a, const Key& k) { return lager::cursor<Part>{a expr}; } \
    auto okr_##name(lager::reader<Whole> a, const Key& k) { return v_##name(cur(a), k); } \
    auto okc_##name(lager::cursor<Whole> a, const Key& k) { return v_##name(cur(a), k); } \
    auto os_##name(lager::cursor<Whole> a, const Part& p, const Key& k) { return s_##name(fresh(a), p, k); } \
    auto kg_##name(lager::reader<Part> a) { return std::make_tuple(a.get(), cur(a)); } \
    void kw_##name(lager::cursor<Whole> a, const Part& p, const Key& k) { a expr.make().set(p); }
OptIn v_key(const MapKV& w, const K& k) { if (w.count(k)) return w.at(k); return {}; }
MapKV s_key(const MapKV& w, const OptIn& p, const K& k) { if (p && w.count(k)) return w.set(k, *p); return w; }
KEYED(key, MapKV, OptIn, K, [k])
OptIn v_idx(const VecV& w, const Idx& k) { if (k < w.size()) return w.at(k); return {}; }
VecV s_idx(const VecV& w, const OptIn& p, const Idx& k) { if (p && k < w.size()) return w.set(k, *p); return w; }
KEYED(idx, VecV, OptIn, Idx, [k])
OptIn v_mutkey(const MutKV& w, const K& k) { if (w.count(k)) return w.at(k); return {}; }
MutKV s_mutkey(const MutKV& w, const OptIn& p, const K& k) { MutKV r = w; if (p && w.count(k)) r.at(k) = *p; return r; }
KEYED(mutkey, MutKV, OptIn, K, [k])
OptIn v_lens(const MapKV& w, const K& k) { if (w.count(k)) return w.at(k); return {}; }
MapKV s_lens(const MapKV& w, const OptIn& p, const K& k) { if (p && w.count(k)) return w.set(k, *p); return w; }
KEYED(lens, MapKV, OptIn, K, [lager::lenses::at(k)])
MapKV v_member(const Own& w, const K& k) { return w.m; }
Own s_member(const Own& w, const MapKV& p, const K& k) { Own r = w; r.m = p; return r; }
KEYED(member, Own, MapKV, K, [&Own::m])
OptIn v_memkey(const Own& w, const K& k) { if (w.m.count(k)) return w.m.at(k); return {}; }
Own s_memkey(const Own& w, const OptIn& p, const K& k) { Own r = w; if (p && w.m.count(k)) r.m = w.m.set(k, *p); return r; }
KEYED(memkey, Own, OptIn, K, [&Own::m][k])
OptT v_keymem(const MapKV& w, const K& k) { if (w.count(k)) return w.at(k).a; return {}; }
MapKV s_keymem(const MapKV& w, const OptT& p, const K& k)
{ if (p && w.count(k)) { In r = w.at(k); r.a = *p; return w.set(k, r); } return w; }
KEYED(keymem, MapKV, OptT, K, [k][&In::a])
OptIn v_optkey(const OptMap& w, const K& k) { if (w && w->count(k)) return w->at(k); return {}; }
OptMap s_optkey(const OptMap& w, const OptIn& p, const K& k) { if (w && p && w->count(k)) return w->set(k, *p); return w; }
KEYED(optkey, OptMap, OptIn, K, [k])
OptT v_optmem(const OptIn& w, const K& k) { if (w) return w->a; return {}; }
OptIn s_optmem(const OptIn& w, const OptT& p, const K& k) { OptIn r = w; if (w && p) r->a = *p; return r; }
KEYED(optmem, OptIn, OptT, K, [&In::a])
In v_ordef(const OptIn& w, const K& k) { if (w) return *w; return In{}; }
OptIn s_ordef(const OptIn& w, const In& p, const K& k) { return p; }
KEYED(ordef, OptIn, In, K, [lager::lenses::or_default])
T v_oror(const OptIn& w, const K& k) { if (w) return w->a; return In{}.a; }
OptIn s_oror(const OptIn& w, const T& p, const K& k) { In r = w ? *w : In{}; r.a = p; return r; }
KEYED(oror, OptIn, T, K, [lager::lenses::or_default][&In::a])
struct KK { K i, j; };
OptIn v_keykey(const Nested& w, const KK& k) { if (w.count(k.i) && w.at(k.i).count(k.j)) return w.at(k.i).at(k.j); return {}; }
Nested s_keykey(const Nested& w, const OptIn& p, const KK& k)
{ if (p && w.count(k.i) && w.at(k.i).count(k.j)) return w.set(k.i, w.at(k.i).set(k.j, *p)); return w; }
KEYED(keykey, Nested, OptIn, KK, [k.i][k.j])
}

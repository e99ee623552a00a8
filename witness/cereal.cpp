// Saving and loading of every supported immutable container with opaque archives and elements.
#include "first.hpp"
#include <lager/extra/cereal/immer_array.hpp>
#include <lager/extra/cereal/immer_box.hpp>
#include <lager/extra/cereal/immer_flex_vector.hpp>
#include <lager/extra/cereal/immer_map.hpp>
#include <lager/extra/cereal/immer_set.hpp>
#include <lager/extra/cereal/immer_vector.hpp>
#include "opaque.hpp"
namespace W {
struct SaveAr { template <typename... Ts> SaveAr& operator()(Ts&&...); };
struct LoadAr { template <typename... Ts> LoadAr& operator()(Ts&&...); };
using E = Val<0>;
using K = Val<1>;
struct Id { K id; Val<2> rest; };
template <int N> struct hash { std::size_t operator()(const Val<N>&) const; };
#define BOTH(name, ...) \
    void save_##name(SaveAr& a, const __VA_ARGS__& v) { cereal::save(a, v); } \
    void load_##name(LoadAr& a, __VA_ARGS__& v) { cereal::load(a, v); }
BOTH(seq_vector, immer::vector<E>)
BOTH(seq_boxes, immer::vector<immer::box<E>>)
BOTH(seq_array, immer::array<E>)
BOTH(seq_flex, immer::flex_vector<E>)
BOTH(set_set, immer::set<E, hash<0>>)
BOTH(map_map, immer::map<K, E, hash<1>>)
BOTH(ids_map, immer::map<K, Id, hash<1>>)
BOTH(box_box, immer::box<E>)
}

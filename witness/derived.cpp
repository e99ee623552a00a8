// Structs, enums and variants with derived operations, over opaque members and archives.
#include "first.hpp"
#include <cctype>
#include <string>
#include <lager/extra/cereal/enum.hpp>
#include <lager/extra/cereal/inline.hpp>
#include <lager/extra/cereal/json.hpp>
#include <lager/extra/cereal/struct.hpp>
#include <lager/extra/cereal/tuple.hpp>
#include <lager/extra/cereal/variant_with_name.hpp>
#include <lager/extra/derive.hpp>
#include <lager/extra/derive/cereal.hpp>
#include <lager/extra/derive/eq.hpp>
#include <lager/extra/derive/hana.hpp>
#include <lager/extra/derive/hash.hpp>
#include <lager/extra/struct.hpp>
#include <tuple>
#include <typeinfo>
#include "opaque.hpp"

template <int N>
struct std::hash<W::Val<N>>
{
    std::size_t operator()(const W::Val<N>&) const;
};

namespace W {
struct SaveAr { template <typename... Ts> SaveAr& operator()(Ts&&...); };
struct LoadAr { template <typename... Ts> LoadAr& operator()(Ts&&...); };
} // namespace W

namespace D {
using W::Val;
struct none {};
struct one { Val<0> alpha; };
struct three { Val<0> alpha; Val<1> beta_gamma; Val<2> delta; };
struct eight { Val<0> m1; Val<1> m2; Val<0> m3; Val<2> m4; Val<0> m5; Val<1> m6; Val<3> m7; Val<0> m8; };
// two members of the same type, not listed in the order of declaration
struct twins { Val<0> beta; Val<0> alpha; };
struct outer { three inner; Val<3> rest; };
template <typename A, typename B> struct pair_of { A first; B second; };
template <typename A> struct host
{
    struct nested
    {
        A left;
        Val<4> right;
        LAGER_DERIVE_NESTED((EQ, HANA, CEREAL), nested, left, right);
    };
};
struct plain { Val<0> alpha; Val<1> beta_gamma; };
template <typename A> struct plain_of { A alpha; Val<1> beta_gamma; };
struct camel
{
    static constexpr bool serialize_camel_case = true;
    Val<0> alpha;
    Val<1> beta_gamma;
    LAGER_STRUCT_NESTED(camel, alpha, beta_gamma);
};
enum class kind { good, bad, ugly = 7 };
enum plain_kind { big, small };
}
LAGER_DERIVE((EQ, HANA, CEREAL), D, none);
LAGER_DERIVE((EQ, HANA, CEREAL, HASH), D, one, alpha);
LAGER_DERIVE((EQ, HANA, CEREAL, HASH), D, three, alpha, beta_gamma, delta);
LAGER_DERIVE((EQ, HANA, CEREAL, HASH), D, twins, alpha, beta);
LAGER_DERIVE((EQ, HANA, CEREAL, HASH), D, eight, m1, m2, m3, m4, m5, m6, m7, m8);
LAGER_DERIVE((EQ, CEREAL, HASH), D, outer, inner, rest);
LAGER_DERIVE_TEMPLATE((EQ, HANA, CEREAL, HASH), D, (class A, class B), (pair_of<A, B>), first, second);
LAGER_STRUCT(D, plain, alpha, beta_gamma);
LAGER_STRUCT_TEMPLATE(D, (class A), (plain_of<A>), alpha, beta_gamma);
LAGER_ENUM(D, kind, good, bad, ugly);
LAGER_ENUM(D, plain_kind, big, small);

namespace D {
using two = pair_of<Val<0>, Val<1>>;
using nested = host<Val<0>>::nested;
using plain_two = plain_of<Val<0>>;
#define EQS(T) \
    bool eq_##T(const T& a, const T& b) { return a == b; } \
    bool ne_##T(const T& a, const T& b) { return a != b; }
#define HASHES(T) std::size_t hash_##T(const T& a) { return std::hash<T>{}(a); }
#define ARCHIVES(T) \
    void save_##T(W::SaveAr& ar, T& x) { serialize(ar, x); } \
    void load_##T(W::LoadAr& ar, T& x) { serialize(ar, x); }
#define STRUCTS(T) \
    void save_##T(W::SaveAr& ar, T& x) { cereal::serialize(ar, x); } \
    void load_##T(W::LoadAr& ar, T& x) { cereal::serialize(ar, x); }
#define HANAS(T) \
    void hsave_##T(W::SaveAr& ar, T& x) { cereal::serialize(ar, x); } \
    void hload_##T(W::LoadAr& ar, T& x) { cereal::serialize(ar, x); }
HANAS(none) HANAS(one) HANAS(three) HANAS(twins) HANAS(two) HANAS(nested) HANAS(eight)
EQS(eight) HASHES(eight) ARCHIVES(eight)
EQS(none) ARCHIVES(none)
EQS(one) HASHES(one) ARCHIVES(one)
EQS(three) HASHES(three) ARCHIVES(three)
EQS(twins) HASHES(twins) ARCHIVES(twins)
EQS(outer) HASHES(outer) ARCHIVES(outer)
EQS(two) HASHES(two) ARCHIVES(two)
EQS(nested) ARCHIVES(nested)
EQS(plain) STRUCTS(plain)
EQS(plain_two) STRUCTS(plain_two)
EQS(camel) STRUCTS(camel)

using tuple3 = std::tuple<Val<0>, Val<1>, Val<0>>;
STRUCTS(tuple3)
using tuple6 = std::tuple<Val<0>, Val<1>, Val<0>, Val<2>, Val<1>, Val<0>>;
STRUCTS(tuple6)
using tuple0 = std::tuple<>;
STRUCTS(tuple0)

using either = std::variant<Val<0>, Val<1>, int>;
void save_either(W::SaveAr& ar, const either& x) { cereal::save(ar, x); }
void load_either(W::LoadAr& ar, either& x) { cereal::load(ar, x); }

struct TextIn : cereal::InputArchive<TextIn>, cereal::traits::TextArchive
{
    bool hasName(const char*) const;
    template <typename... Ts> TextIn& operator()(Ts&&...);
};
struct TextOut : cereal::OutputArchive<TextOut>, cereal::traits::TextArchive
{
    template <typename... Ts> TextOut& operator()(Ts&&...);
};
bool optional_save(TextOut& ar, Val<0>& x) { return cereal::serialize_optional_nvp(ar, "it", x); }
bool optional_load(TextIn& ar, Val<0>& x) { return cereal::serialize_optional_nvp(ar, "it", x); }

struct both_in { template <typename Ar> void serialize(Ar&); };
struct both_out {};
template <typename Ar> void serialize(Ar&, both_out&);
struct each_in { template <typename Ar> void save(Ar&) const; template <typename Ar> void load(Ar&); };
struct each_out {};
template <typename Ar> void save(Ar&, const each_out&);
template <typename Ar> void load(Ar&, each_out&);
#define INLINES(T) \
    void inline_save_##T(W::SaveAr& ar, const T& x) { cereal::save_inline(ar, x); } \
    void inline_load_##T(W::LoadAr& ar, T& x) { cereal::load_inline(ar, x); }
INLINES(both_in) INLINES(both_out) INLINES(each_in) INLINES(each_out)
std::string json_save(const each_out& x) { return lager::to_json(x); }
each_out json_load(const std::string& x) { return lager::from_json<each_out>(x); }

std::string save_kind(const W::SaveAr& ar, const kind& x) { return cereal::save_minimal(ar, x); }
void load_kind(const W::LoadAr& ar, kind& x, const std::string& s) { cereal::load_minimal(ar, x, s); }
std::string save_plain_kind(const W::SaveAr& ar, const plain_kind& x) { return cereal::save_minimal(ar, x); }
void load_plain_kind(const W::LoadAr& ar, plain_kind& x, const std::string& s) { cereal::load_minimal(ar, x, s); }
}

// Containers as the library's lenses see them: declared, never defined.
#pragma once
#include "opaque.hpp"
namespace W {
using K = Val<7>;
struct In { T a; U b; X c; bool operator==(const In&) const; };
// containers; at/set/insert/count/size have the meaning of their namesakes in
// the standard library and immer (see checks/lenses.py)
template <typename K_, typename V>
struct Mut                                  // std::map, std::vector
{
    using size_type = unsigned long;
    Mut();
    Mut(const Mut&);
    Mut(Mut&&);
    Mut& operator=(const Mut&);
    Mut& operator=(Mut&&);
    bool operator==(const Mut&) const;
    V& at(const K_&);
    const V& at(const K_&) const;
    V& operator[](const K_&);
    unsigned long count(const K_&) const;
};
template <typename V>
struct MutVec
{
    using size_type = unsigned long;
    MutVec();
    MutVec(const MutVec&);
    MutVec(MutVec&&);
    MutVec& operator=(const MutVec&);
    MutVec& operator=(MutVec&&);
    bool operator==(const MutVec&) const;
    V& at(unsigned long);
    const V& at(unsigned long) const;
    V& operator[](unsigned long);
    const V& operator[](unsigned long) const;
    unsigned long size() const;
};
template <typename K_, typename V>
struct Map                                  // immer::map
{
    using size_type = unsigned long;
    Map();
    Map(const Map&);
    Map(Map&&);
    Map& operator=(const Map&);
    Map& operator=(Map&&);
    bool operator==(const Map&) const;
    const V& at(const K_&) const;
    const V& operator[](const K_&) const;
    Map set(K_, V) const&;
    Map set(K_, V) &&;
    unsigned long count(const K_&) const;
};
template <typename V>
struct Vec                                  // immer::vector
{
    using size_type = unsigned long;
    Vec();
    Vec(const Vec&);
    Vec(Vec&&);
    Vec& operator=(const Vec&);
    Vec& operator=(Vec&&);
    bool operator==(const Vec&) const;
    const V& at(unsigned long) const;
    const V& operator[](unsigned long) const;
    Vec set(unsigned long, V) const&;
    Vec set(unsigned long, V) &&;
    unsigned long size() const;
};
template <typename K_, typename V>
struct Table                                // immer::table
{
    using size_type = unsigned long;
    Table();
    Table(const Table&);
    Table(Table&&);
    Table& operator=(const Table&);
    Table& operator=(Table&&);
    bool operator==(const Table&) const;
    const V& at(const K_&) const;
    Table insert(V) const&;
    Table insert(V) &&;
    unsigned long count(const K_&) const;
};
struct Box
{
    Box(In);
    Box(const Box&);
    Box(Box&&);
    Box& operator=(const Box&);
    const In& get() const;
};
}

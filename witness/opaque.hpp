// Opaque building blocks of the witnesses: declared, never defined, so that
// nothing about them can be assumed by the analysis.
#pragma once
#include <memory>
#include <utility>
namespace W {
// a value type with equality
template <int N>
struct Val
{
    Val();
    Val(const Val&);
    Val(Val&&);
    Val& operator=(const Val&);
    Val& operator=(Val&&);
    ~Val();
    bool operator==(const Val&) const;
};
using T = Val<0>;
using U = Val<1>;
using X = Val<2>;
// a value type without equality
template <int N>
struct NoEq
{
    NoEq();
    NoEq(const NoEq&);
    NoEq(NoEq&&);
    NoEq& operator=(const NoEq&);
    NoEq& operator=(NoEq&&);
    ~NoEq();
};
using N = NoEq<0>;
// opaque pure functions
template <typename R, typename... As>
struct Fn
{
    Fn(const Fn&);
    Fn(Fn&&);
    Fn& operator=(const Fn&);
    R operator()(As...) const;
};
}

// Futures and promises over opaque continuations and an opaque event loop.
#include "first.hpp"
#include <lager/future.hpp>
#include "opaque.hpp"
namespace W {
struct Loop
{
    template <typename F>
    void post(F&& f);
};
void complete(lager::promise& p) { p(); }
lager::future then_void(lager::future f, Fn<void> fn) { return std::move(f).then(fn); }
lager::future then_fut(lager::future f, Fn<lager::future> fn) { return std::move(f).then(fn); }
lager::future then_void_rv(lager::future f, Fn<void> fn) { return std::move(f).then(std::move(fn)); }
lager::future then_promise(lager::future f, lager::promise p) { return std::move(f).then(std::move(p)); }
lager::future also(lager::future a, lager::future b) { return a.also(std::move(b)); }
auto with_loop(Loop& l) { return lager::promise::with_loop(l); }
auto with_post(std::function<void(std::function<void()>)> p) { return lager::promise::with_post(p); }
auto invalid() { return lager::promise::invalid(); }
}

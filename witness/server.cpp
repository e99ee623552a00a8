// The HTTP server of the debugger: routes, handlers, the snapshot it serves and the life of its connections.
#include "first.hpp"
#include <optional>
#include <utility>
#include <cereal/cereal.hpp>
#include <cereal/types/string.hpp>
#include <lager/debug/http_server.hpp>
#include <lager/store.hpp>
namespace W {
struct Act
{
    Act(const Act&);
    Act(Act&&);
    template <class A> void save(A& a) const;
};
struct Mod
{
    Mod(const Mod&);
    Mod(Mod&&);
    template <class A> void save(A& a) const;
};
struct Dbg
{
    using base_action = Act;
    using base_model  = Mod;
    using cursor_t    = std::size_t;
    struct goto_action { cursor_t cursor; };
    struct undo_action {};
    struct redo_action {};
    struct pause_action {};
    struct resume_action {};
    using action = std::variant<Act, goto_action, undo_action, redo_action, pause_action, resume_action>;
    struct model
    {
        model();
        model(const model&);
        model(model&&);
        model& operator=(const model&);
        model& operator=(model&&);
        bool operator==(const model&) const;
        bool operator!=(const model&) const;
        cursor_t cursor;
        bool paused;
        std::size_t summary() const;
        using lookup_result = std::pair<std::optional<Act>, const Mod&>;
        lookup_result lookup(cursor_t) const;
    };
};
using Impl    = lager::detail::http_debug_server_impl<Dbg>;
namespace http = lager::detail::http;
using Req     = http::router::req_t;
void create(int argc, const char** argv, std::uint16_t port, std::string path) { new Impl{argc, argv, port, path}; }
void made(int argc, const char** argv, std::uint16_t port, std::string path)
{
    lager::http_debug_server s{argc, argv, port, path};
    s.make(Dbg{});
}
void start(Impl& s, lager::context<Dbg::action> c, lager::reader<Dbg::model> r) { s.init(c, r); }
Dbg::model current(Impl&, lager::context<Dbg::action>, lager::reader<Dbg::model> r) { return r.get(); }
http::router::res_t handle(http::router& r, Req q) { return r.handle_request(std::move(q)); }
void add(http::router& r, lager::beast::http::verb v, const std::string& t, http::router::handler_t h) { r.route(v, t, h); }
void converse(http::session& s) { s.run(); }
void listen(http::listener& l) { l.run(); }
void serve(std::uint16_t p, http::router r) { http::server s{p, r}; }
}

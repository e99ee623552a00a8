// Event loops of toolkits: posting, asynchronous work, control and the loops themselves.
#include "first.hpp"
#include <functional>
#include <lager/event_loop/boost_asio.hpp>
#include <lager/event_loop/sdl.hpp>
#include <lager/event_loop/qt.hpp>
#include <QQuickItem>
#include <QTimer>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/qml.hpp>
namespace W {
struct Task
{
    Task(const Task&);
    Task(Task&&);
    void operator()() const;
};
struct Handler { Handler(const Handler&); Handler(Handler&&); bool operator()(const SDL_Event&); };
struct Tick { Tick(const Tick&); Tick(Tick&&); bool operator()(float); };
using Ex   = boost::asio::io_context::executor_type;
using Asio = lager::with_boost_asio_event_loop<Ex>;
using Strand = lager::with_boost_asio_event_loop<boost::asio::strand<Ex>>;
#define LOOP(name, type, work) \
    void post_##name(type& l, Task& t) { l.post(t); } \
    void post_moved_##name(type& l, Task& t) { l.post(std::move(t)); } \
    void post_function_##name(type& l, std::function<void()>& t) { l.post(t); } \
    void finish_##name(type& l) { l.finish(); } \
    void pause_##name(type& l) { l.pause(); } \
    void resume_##name(type& l) { l.resume(); }
#define ASYNC(name, type) \
    void async_##name(type& l, Task& t) { l.async(t); } \
    void async_moved_##name(type& l, Task& t) { l.async(std::move(t)); } \
    void async_function_##name(type& l, std::function<void()>& t) { l.async(t); }
LOOP(asio, Asio, )
LOOP(strand, Strand, )
LOOP(qt, lager::with_qt_event_loop, )
LOOP(qml, lager::with_qml_event_loop, )
LOOP(qml_item, lager::event_loop_quick_item, )
LOOP(sdl, lager::with_sdl_event_loop, )
LOOP(sdl_loop, lager::sdl_event_loop, )
ASYNC(asio, Asio)
ASYNC(strand, Strand)
ASYNC(qt, lager::with_qt_event_loop)
ASYNC(qml, lager::with_qml_event_loop)
ASYNC(qml_item, lager::event_loop_quick_item)
ASYNC(sdl, lager::with_sdl_event_loop)
void run_events(lager::sdl_event_loop& l, Handler h) { l.run(h); }
void run_ticks(lager::sdl_event_loop& l, Handler h, Tick t) { l.run(h, t); }
void polish_item(lager::event_loop_quick_item& l) { l.lager::event_loop_quick_item::updatePolish(); }
void paint_item(lager::event_loop_quick_item& l) { l.lager::event_loop_quick_item::updatePaintNode(nullptr, nullptr); }
void event_item(lager::event_loop_quick_item& l, QEvent* e) { l.lager::event_loop_quick_item::event(e); }
void make_asio(Ex e, std::function<void()> s) { Asio l{e, s}; l.finish(); }
void make_asio_default(Ex e) { Asio l{e}; l.finish(); }
void make_asio_copy(Ex e, std::function<void()> s) { Asio l{e, s}; Asio k{l}; k.finish(); }
void destroy_qt(QObject& o, QThreadPool& p) { lager::with_qt_event_loop l{o, p}; }
void step_item(lager::event_loop_quick_item& l) { l.lager::event_loop_quick_item::step(); }
void make_item(QQuickItem* p) { new lager::event_loop_quick_item{p}; }
}

// The event loops over opaque tasks.
#include "first.hpp"
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include "opaque.hpp"
namespace W {
using Task = Fn<void>;
using TaskF = std::function<void()>;
void manual_post(lager::with_manual_event_loop& l, TaskF t) { l.post(t); }
void manual_postm(lager::with_manual_event_loop& l, Task t) { l.post(std::move(t)); }
void queue_post(lager::queue_event_loop& l, TaskF t) { l.post(t); }
void queue_postw(lager::with_queue_event_loop& l, Task t) { l.post(t); }
void queue_step(lager::queue_event_loop& l) { l.step(); }
void safe_post(lager::safe_queue_event_loop& l, TaskF t) { l.post(t); }
void safe_postw(lager::with_safe_queue_event_loop& l, Task t) { l.post(t); }
void safe_step(lager::safe_queue_event_loop& l) { l.step(); }
void safe_adopt(lager::safe_queue_event_loop& l) { l.adopt(); }
void make() { lager::with_manual_event_loop m; lager::queue_event_loop q; lager::safe_queue_event_loop s; }
}

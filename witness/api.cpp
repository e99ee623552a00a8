#include "opaque.hpp"
#include <vector>
#include <lager/detail/access.hpp>
#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/constant.hpp>
#include <lager/state.hpp>
#include <lager/writer.hpp>
#include <lager/watch.hpp>
namespace W {
using Read = Fn<T>;
using Change = Fn<T, T>;
struct Cb
{
    Cb(const Cb&);
    Cb(Cb&&);
    void operator()(const T&) const;
};
using Sensor = lager::sensor<T>;
using Auto = lager::state<U, lager::automatic_tag>;

// --- commits
void commit_1(lager::state<T>& a) { lager::commit(a); }
void commit_2(lager::state<T>& a, lager::state<U>& b) { lager::commit(a, b); }
void commit_4(lager::state<T>& a, Sensor& b, lager::state<U>& c, Auto& d) { lager::commit(a, b, c, d); }
void commit_3(Sensor& r0, lager::state<T>& r1, lager::state<T>& r2) { lager::commit(r0, r1, r2); }
void commit_5(Sensor& r0, lager::state<T>& r1, lager::state<T>& r2, Sensor& r3, lager::state<T>& r4) { lager::commit(r0, r1, r2, r3, r4); }
void commit_6(Sensor& r0, lager::state<T>& r1, lager::state<T>& r2, Sensor& r3, lager::state<T>& r4, lager::state<T>& r5) { lager::commit(r0, r1, r2, r3, r4, r5); }
void commit_7(Sensor& r0, lager::state<T>& r1, lager::state<T>& r2, Sensor& r3, lager::state<T>& r4, lager::state<T>& r5, Sensor& r6) { lager::commit(r0, r1, r2, r3, r4, r5, r6); }
void commit_8(Sensor& r0, lager::state<T>& r1, lager::state<T>& r2, Sensor& r3, lager::state<T>& r4, lager::state<T>& r5, Sensor& r6, lager::state<T>& r7) { lager::commit(r0, r1, r2, r3, r4, r5, r6, r7); }
void commit_10(Sensor& r0, lager::state<T>& r1, lager::state<T>& r2, Sensor& r3, lager::state<T>& r4, lager::state<T>& r5, Sensor& r6, lager::state<T>& r7, lager::state<T>& r8, Sensor& r9) { lager::commit(r0, r1, r2, r3, r4, r5, r6, r7, r8, r9); }
void commit_12(Sensor& r0, lager::state<T>& r1, lager::state<T>& r2, Sensor& r3, lager::state<T>& r4, lager::state<T>& r5, Sensor& r6, lager::state<T>& r7, lager::state<T>& r8, Sensor& r9, lager::state<T>& r10, lager::state<T>& r11) { lager::commit(r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11); }
void commit_16(Sensor& r0, lager::state<T>& r1, lager::state<T>& r2, Sensor& r3, lager::state<T>& r4, lager::state<T>& r5, Sensor& r6, lager::state<T>& r7, lager::state<T>& r8, Sensor& r9, lager::state<T>& r10, lager::state<T>& r11, Sensor& r12, lager::state<T>& r13, lager::state<T>& r14, Sensor& r15) { lager::commit(r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15); }
void commit_c(const lager::state<T>& a, const Sensor& b) { lager::commit(a, b); }

// --- reading
const T& get_reader(const lager::reader<T>& h) { return h.get(); }
const T& get_cursor(const lager::cursor<T>& h) { return h.get(); }
const T& get_state(const lager::state<T>& h) { return h.get(); }
const T& get_sensor(const Sensor& h) { return h.get(); }
const T& get_auto(const lager::state<T, lager::automatic_tag>& h) { return h.get(); }
const T& get_dreader(const lager::reader<T>& h) { return *h; }
const T& get_dcursor(const lager::cursor<T>& h) { return *h; }
const T& get_dstate(const lager::state<T>& h) { return *h; }
const T& get_areader(const lager::reader<T>& h) { return *h.operator->(); }
const T& get_acursor(const lager::cursor<T>& h) { return *h.operator->(); }

// --- writing
void set_cursor(lager::cursor<T>& h, const T& v) { h.set(v); }
void set_writer(lager::writer<T>& h, const T& v) { h.set(v); }
void set_state(lager::state<T>& h, const T& v) { h.set(v); }
void set_mcursor(lager::cursor<T>& h, T& v) { h.set(std::move(v)); }
void set_mwriter(lager::writer<T>& h, T& v) { h.set(std::move(v)); }
void set_mstate(lager::state<T>& h, T& v) { h.set(std::move(v)); }
void update_cursor(lager::cursor<T>& h, Change& f) { h.update(f); }
void update_writer(lager::writer<T>& h, Change& f) { h.update(f); }
void update_state(lager::state<T>& h, Change& f) { h.update(f); }
void update_mcursor(lager::cursor<T>& h, Change& f) { h.update(std::move(f)); }

// --- watching: the handle is a generic one
void watch_reader(lager::reader<T>& h, Cb& f) { h.watch(f); }
void watch_cursor(lager::cursor<T>& h, Cb& f) { h.watch(f); }
void watch_state(lager::state<T>& h, Cb& f) { h.watch(f); }
void watch_free(lager::reader<T>& h, Cb& f) { lager::watch(h, f); }
void watch_mfree(lager::cursor<T>& h, Cb& f) { lager::watch(h, std::move(f)); }
void bind_reader(lager::reader<T>& h, Cb& f) { h.bind(f); }
void bind_cursor(lager::cursor<T>& h, Cb& f) { h.bind(f); }
void bind_mcursor(lager::cursor<T>& h, Cb& f) { h.bind(std::move(f)); }
void nudge_reader(lager::reader<T>& h) { h.nudge(); }
void nudge_cursor(lager::cursor<T>& h) { h.nudge(); }
void unbind_reader(lager::reader<T>& h) { h.unbind(); }
void unbind_cursor(lager::cursor<T>& h) { h.unbind(); }
void unbind_state(lager::state<T>& h) { h.unbind(); }
void assign_reader(lager::reader<T>& h, const lager::reader<T>& o) { h = o; }
void assign_cursor(lager::cursor<T>& h, const lager::cursor<T>& o) { h = o; }
void assign_mreader(lager::reader<T>& h, lager::reader<T>& o) { h = std::move(o); }
void assign_mcursor(lager::cursor<T>& h, lager::cursor<T>& o) { h = std::move(o); }
void assign_mstate(lager::state<T>& h, lager::state<T>& o) { h = std::move(o); }
void copy_reader(lager::reader<T>& o) { lager::reader<T> h{o}; h.nudge(); }
lager::reader<T> copyr_reader(lager::reader<T>& o) { return o; }
lager::cursor<T> copyr_cursor(lager::cursor<T>& o) { return o; }
lager::reader<T> copyr_conv(lager::cursor<T>& o) { return o; }
lager::reader<T> copyr_state(lager::state<T>& o) { return o; }
lager::reader<T> mover_reader(lager::reader<T>& o) { return std::move(o); }
lager::cursor<T> mover_cursor(lager::cursor<T>& o) { return std::move(o); }
lager::state<T> mover_state(lager::state<T>& o) { return std::move(o); }
void drop_reader(lager::reader<T>* h) { h->~reader<T>(); }
void drop_cursor(lager::cursor<T>* h) { h->~cursor<T>(); }
}

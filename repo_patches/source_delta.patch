From 08eb612f4ac2217dfc0019d15cff31cabe654af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:51 +0000
Subject: [PATCH 01/28] fix: do not notify watchers when the published value
 ends up unchanged

Writing a value and writing back the previous one before committing
marked the node as changed, so watchers were invoked with a value equal
to the one they had already seen.
---
 lager/detail/nodes.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index f7dabb9..7235f14 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -47,6 +47,7 @@
 #include <algorithm>
 #include <functional>
 #include <memory>
+#include <utility>
 #include <vector>
 
 namespace lager {
@@ -214,6 +215,9 @@ public:
     {
         this->recompute();
         if (needs_send_down_) {
+            // The value might have been written more than once, ending up
+            // being the same as the last one that was published.
+            changed_         = changed_ || has_changed(current_, last_);
             last_            = current_;
             needs_send_down_ = false;
             needs_notify_    = true;
@@ -234,7 +238,10 @@ public:
             notifying_guard_t notifying_guard(notifying_);
             bool garbage = false;
 
-            this->observers()(last_);
+            if (std::exchange(changed_, false)) {
+                this->observers()(last_);
+            }
+
             // We cannot use ranged-for here because children might
             // change as a result of notify(). This can invalidate
             // the iterators on children, causing undefined behaviors.
@@ -260,6 +267,7 @@ private:
 
     bool needs_send_down_ = false;
     bool needs_notify_    = false;
+    bool changed_         = false;
     bool notifying_       = false;
 };
 
-- 
2.43.0


From aa5ba4d3280c5646ddaebd2ce1474d685dfb2c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:32 +0000
Subject: [PATCH 02/28] fix: update through derived cursors uses the latest
 pending value

cursor::update() and writer::update() passed the derived node's cached
value to the function, which misses writes that were made since the last
commit.  Refresh the node from its parents first, like setting does.
---
 lager/writer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lager/writer.hpp b/lager/writer.hpp
index 93dd54e..84df291 100644
--- a/lager/writer.hpp
+++ b/lager/writer.hpp
@@ -37,7 +37,9 @@ struct writer_mixin
     template <typename Fn>
     void update(Fn&& fn)
     {
-        return node_()->send_up(std::forward<Fn>(fn)(node_()->current()));
+        auto node = node_();
+        node->refresh();
+        return node->send_up(std::forward<Fn>(fn)(node->current()));
     }
 
     template <typename T>
-- 
2.43.0


From 26864feb02795dc3373f321d4e461d969225d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:55 +0000
Subject: [PATCH 03/28] fix: optional and alternative lenses do not take from
 the whole while viewing

When the whole is passed as an rvalue the focused part was moved out of it
before the setter ran, so setting an empty optional returned a whole with
a moved-from part.
---
 lager/lenses/optional.hpp | 2 +-
 lager/lenses/variant.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lager/lenses/optional.hpp b/lager/lenses/optional.hpp
index fda878f..b05f06a 100644
--- a/lager/lenses/optional.hpp
+++ b/lager/lenses/optional.hpp
@@ -26,7 +26,7 @@ auto opt_impl(Lens&& lens)
                 std::declval<std::decay_t<decltype(whole.value())>>()))>>::type;
 
             if (whole.has_value()) {
-                return f(Part{::lager::view(lens, LAGER_FWD(whole).value())})(
+                return f(Part{::lager::view(lens, whole.value())})(
                     [&](Part part) {
                         if (part.has_value()) {
                             return std::decay_t<decltype(whole)>{
diff --git a/lager/lenses/variant.hpp b/lager/lenses/variant.hpp
index bb1ea57..ff14780 100644
--- a/lager/lenses/variant.hpp
+++ b/lager/lenses/variant.hpp
@@ -24,7 +24,7 @@ struct alternative_t : zug::detail::pipeable
             using Whole = std::decay_t<decltype(p)>;
             return f([&]() -> Part {
                 if (std::holds_alternative<T>(p)) {
-                    return std::get<T>(LAGER_FWD(p));
+                    return std::get<T>(p);
                 } else {
                     return std::nullopt;
                 }
-- 
2.43.0


From 19431bf80f49f7e8221be3bce7730307dceed6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:08 +0000
Subject: [PATCH 04/28] fix: getset does not move the whole into a getter that
 returns by value

The setter received a moved-from whole when an rvalue whole was set
through a lens whose getter takes its argument by value.
---
 lager/lenses.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lager/lenses.hpp b/lager/lenses.hpp
index 1f8db7c..003dc6c 100644
--- a/lager/lenses.hpp
+++ b/lager/lenses.hpp
@@ -107,7 +107,14 @@ auto getset(Getter&& getter, Setter&& setter)
 {
     return zug::comp([=](auto&& f) {
         return [&, f = LAGER_FWD(f)](auto&& p) {
-            return f(getter(std::forward<decltype(p)>(p)))([&](auto&& x) {
+            using getter_t = const std::decay_t<Getter>&;
+            using part_t   = std::invoke_result_t<getter_t, decltype(p)>;
+            // A getter that returns a value may consume its argument, but the
+            // setter needs the whole too, so only the setter gets it moved.
+            constexpr auto keep_whole = !std::is_reference_v<part_t> &&
+                                        std::is_invocable_v<getter_t, decltype((p))>;
+            using arg_t = std::conditional_t<keep_whole, decltype((p)), decltype(p)>;
+            return f(getter(std::forward<arg_t>(p)))([&](auto&& x) {
                 return setter(std::forward<decltype(p)>(p),
                               std::forward<decltype(x)>(x));
             });
-- 
2.43.0


From fdd2eea22a79b8e70e0cdac5aadeeeabfb71a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:00 +0000
Subject: [PATCH 05/28] fix: empty effects stay empty when converted and are
 never run by sequence or a store

---
 lager/effect.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index 9a6d35d..47fb7cb 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -53,7 +53,7 @@ lager::effect<lager::actions<...>, ...> " //
                                    std::is_convertible_v<Deps, D2>,
                                int> = 0>
     effect(effect<A2, D2> e)
-        : base_t{std::move(e)}
+        : base_t{static_cast<typename effect<A2, D2>::base_t&&>(e)}
     {}
 
     template <
@@ -190,6 +190,13 @@ bool is_empty_effect(const std::function<future(Ctx)>& v)
     return !v || v.template target<decltype(noop)>() == &noop;
 }
 
+template <typename Action, typename Deps>
+bool is_empty_effect(const effect<Action, Deps>& v)
+{
+    return is_empty_effect(
+        static_cast<const typename effect<Action, Deps>::base_t&>(v));
+}
+
 template <typename Eff>
 bool is_empty_effect(const Eff& v)
 {
-- 
2.43.0


From 42237bd30a7800a7037255f27918ecf42f263363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 06/28] fix: future::then looks at the shared callback only
 under its lock

The assertion in future::then read promise_state::callback before taking
the mutex, while promise::operator() in another thread may be modifying
it under the mutex.
---
 lager/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/future.hpp b/lager/future.hpp
index aa101ba..87234a4 100644
--- a/lager/future.hpp
+++ b/lager/future.hpp
@@ -200,7 +200,6 @@ future future::then(Fn&& fn) &&
     } else {
         assert(state_);
         assert(state_->post);
-        assert(!state_->callback);
         auto [p, f]   = promise::with_post(state_->post);
         auto callback = [p  = std::move(p),
                          fn = std::forward<Fn>(fn)]() mutable {
@@ -213,6 +212,7 @@ future future::then(Fn&& fn) &&
         };
         {
             auto lock = std::unique_lock{state_->mutex};
+            assert(!state_->callback);
             if (state_->done) {
                 // The promise was already fullfilled, so let's follow up
                 // immediatelly...
-- 
2.43.0


From 2c1103f4ed01b476b4f4822a62e9e6b940a02954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 07/28] fix: public headers include what they use

---
 lager/debug/tree_debugger.hpp   | 1 +
 lager/event_loop/safe_queue.hpp | 1 +
 lager/future.hpp                | 1 +
 lager/watch.hpp                 | 4 ++++
 lager/with.hpp                  | 2 ++
 lager/writer.hpp                | 1 +
 6 files changed, 10 insertions(+)

diff --git a/lager/debug/tree_debugger.hpp b/lager/debug/tree_debugger.hpp
index 4e7f773..4c98a84 100644
--- a/lager/debug/tree_debugger.hpp
+++ b/lager/debug/tree_debugger.hpp
@@ -14,6 +14,7 @@
 
 #include <lager/config.hpp>
 #include <lager/context.hpp>
+#include <lager/effect.hpp>
 #include <lager/util.hpp>
 
 #include <immer/algorithm.hpp>
diff --git a/lager/event_loop/safe_queue.hpp b/lager/event_loop/safe_queue.hpp
index b522077..3029875 100644
--- a/lager/event_loop/safe_queue.hpp
+++ b/lager/event_loop/safe_queue.hpp
@@ -14,6 +14,7 @@
 
 #include <lager/config.hpp>
 
+#include <cassert>
 #include <functional>
 #include <mutex>
 #include <stdexcept>
diff --git a/lager/future.hpp b/lager/future.hpp
index 87234a4..667bc85 100644
--- a/lager/future.hpp
+++ b/lager/future.hpp
@@ -19,6 +19,7 @@
 #include <functional>
 #include <memory>
 #include <mutex>
+#include <stdexcept>
 #include <utility>
 
 namespace lager {
diff --git a/lager/watch.hpp b/lager/watch.hpp
index 114a73d..d7fd289 100644
--- a/lager/watch.hpp
+++ b/lager/watch.hpp
@@ -12,11 +12,15 @@
 
 #pragma once
 
+#include <lager/detail/access.hpp>
 #include <lager/detail/signal.hpp>
 
 #include <zug/meta/value_type.hpp>
 
 #include <memory>
+#include <type_traits>
+#include <utility>
+#include <vector>
 
 namespace lager {
 
diff --git a/lager/with.hpp b/lager/with.hpp
index c13166d..985c152 100644
--- a/lager/with.hpp
+++ b/lager/with.hpp
@@ -12,8 +12,10 @@
 
 #pragma once
 
+#include <lager/detail/access.hpp>
 #include <lager/detail/lens_nodes.hpp>
 #include <lager/detail/merge_nodes.hpp>
+#include <lager/detail/smart_lens.hpp>
 #include <lager/detail/xform_nodes.hpp>
 
 #include <lager/tags.hpp>
diff --git a/lager/writer.hpp b/lager/writer.hpp
index 84df291..7522aff 100644
--- a/lager/writer.hpp
+++ b/lager/writer.hpp
@@ -16,6 +16,7 @@
 #include <lager/detail/nodes.hpp>
 #include <lager/detail/smart_lens.hpp>
 #include <lager/watch.hpp>
+#include <lager/with.hpp>
 
 namespace lager {
 
-- 
2.43.0


From 5fcc05d57adc35450fb1bbb17b8eb7e957be75c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:19 +0000
Subject: [PATCH 08/28] fix: core headers compile with exceptions disabled

---
 lager/config.hpp                | 2 ++
 lager/event_loop/manual.hpp     | 6 +++---
 lager/event_loop/queue.hpp      | 6 +++---
 lager/event_loop/safe_queue.hpp | 6 +++---
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/lager/config.hpp b/lager/config.hpp
index 988e93a..967ffc3 100644
--- a/lager/config.hpp
+++ b/lager/config.hpp
@@ -33,6 +33,8 @@
 #endif
 
 #ifdef LAGER_NO_EXCEPTIONS
+#include <cassert>
+#include <exception>
 #define LAGER_TRY if (true)
 #define LAGER_CATCH(expr) else
 #define LAGER_THROW(expr)                                                      \
diff --git a/lager/event_loop/manual.hpp b/lager/event_loop/manual.hpp
index f8066c9..9120e57 100644
--- a/lager/event_loop/manual.hpp
+++ b/lager/event_loop/manual.hpp
@@ -36,15 +36,15 @@ struct with_manual_event_loop
         queue_.push_back(std::forward<Fn>(fn));
         auto is_root = i_ == 0;
         if (is_root) {
-            try {
+            LAGER_TRY {
                 while (i_ < queue_.size()) {
                     auto f = std::move(queue_[i_++]);
                     std::move(f)();
                 }
-            } catch (...) {
+            } LAGER_CATCH(...) {
                 queue_.erase(queue_.begin(), queue_.begin() + i_);
                 i_ = 0;
-                throw;
+                LAGER_RETHROW;
             }
             queue_.clear();
             i_ = 0;
diff --git a/lager/event_loop/queue.hpp b/lager/event_loop/queue.hpp
index 5c86459..d0eb73e 100644
--- a/lager/event_loop/queue.hpp
+++ b/lager/event_loop/queue.hpp
@@ -40,12 +40,12 @@ struct queue_event_loop
     void step()
     {
         for (auto i = std::size_t{}; i < queue_.size();) {
-            try {
+            LAGER_TRY {
                 auto f = std::move(queue_[i++]);
                 std::move(f)();
-            } catch (...) {
+            } LAGER_CATCH(...) {
                 queue_.erase(queue_.begin(), queue_.begin() + i);
-                throw;
+                LAGER_RETHROW;
             }
         }
         queue_.clear();
diff --git a/lager/event_loop/safe_queue.hpp b/lager/event_loop/safe_queue.hpp
index 3029875..ae10634 100644
--- a/lager/event_loop/safe_queue.hpp
+++ b/lager/event_loop/safe_queue.hpp
@@ -76,13 +76,13 @@ private:
     void run_local_queue_()
     {
         for (auto i = std::size_t{}; i < local_queue_.size();) {
-            try {
+            LAGER_TRY {
                 auto fn = std::move(local_queue_[i++]);
                 std::move(fn)();
-            } catch (...) {
+            } LAGER_CATCH(...) {
                 local_queue_.erase(local_queue_.begin(),
                                    local_queue_.begin() + i);
-                throw;
+                LAGER_RETHROW;
             }
         }
         local_queue_.clear();
-- 
2.43.0


From 02f7ad099616291b2eb22e98d8cccce30200f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:32 +0000
Subject: [PATCH 09/28] fix: with_thunk can be included in several translation
 units

---
 lager/extra/thunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/thunk.hpp b/lager/extra/thunk.hpp
index 8939db7..c3488af 100644
--- a/lager/extra/thunk.hpp
+++ b/lager/extra/thunk.hpp
@@ -30,7 +30,7 @@ namespace lager {
  * Thunks are handled as effects and invoked by the loop with the given
  * context.
  */
-auto with_thunk()
+inline auto with_thunk()
 {
     return [](auto next) {
         return [next](auto action,
-- 
2.43.0


From bafe6d080903ba28d005aacf40512a1a17d4ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:40 +0000
Subject: [PATCH 10/28] fix: writers can be derived from

---
 lager/with.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/with.hpp b/lager/with.hpp
index 985c152..e88dbff 100644
--- a/lager/with.hpp
+++ b/lager/with.hpp
@@ -453,7 +453,7 @@ template <typename... WriterTs>
 auto with_aux(const writer_mixin<WriterTs>&... ins)
 {
     return detail::make_with_expr<writer_base>(
-        std::make_tuple(access::node(std::move(ins))...));
+        std::make_tuple(access::node(ins.make())...));
 }
 
 template <typename... CursorTs>
-- 
2.43.0


From 980ba66da049266747da372cbb702181e27b6f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 11/28] fix: duplicate dependency keys are rejected

hana::make_set does not remove duplicates, so the static_assert on the
number of keys could never fire.
---
 lager/deps.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lager/deps.hpp b/lager/deps.hpp
index e247597..5887fd5 100644
--- a/lager/deps.hpp
+++ b/lager/deps.hpp
@@ -302,7 +302,8 @@ class deps
     template <typename T>
     using get_is_required_t = typename dep::to_spec<T>::is_required;
 
-    static constexpr auto key_set = boost::hana::make_set(get_key_t<Deps>{}...);
+    static constexpr auto key_set = boost::hana::to_set(
+        boost::hana::make_tuple(get_key_t<Deps>{}...));
 
     static constexpr auto required_key_set = boost::hana::unpack(
         boost::hana::filter(
-- 
2.43.0


From 71f10462ea8381cde395b50bc2092262fd861382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:37 +0000
Subject: [PATCH 12/28] fix: a dependency provided by a function converts to a
 value dependency

---
 lager/deps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/deps.hpp b/lager/deps.hpp
index 5887fd5..bcd7e6e 100644
--- a/lager/deps.hpp
+++ b/lager/deps.hpp
@@ -106,7 +106,7 @@ struct val : spec
     }
 
     static storage extract(storage st) { return std::move(st); }
-    static storage extract(std::function<T()> st) { return st(); }
+    static storage extract(std::function<storage()> st) { return st(); }
 };
 
 /*!
-- 
2.43.0


From fed06873eb64d64397f15ff1640417aa7619cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:01 +0000
Subject: [PATCH 13/28] fix: bind() and nudge() on an empty handle throw
 instead of dereferencing null

---
 lager/watch.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lager/watch.hpp b/lager/watch.hpp
index d7fd289..ed06a02 100644
--- a/lager/watch.hpp
+++ b/lager/watch.hpp
@@ -12,12 +12,14 @@
 
 #pragma once
 
+#include <lager/config.hpp>
 #include <lager/detail/access.hpp>
 #include <lager/detail/signal.hpp>
 
 #include <zug/meta/value_type.hpp>
 
 #include <memory>
+#include <stdexcept>
 #include <type_traits>
 #include <utility>
 #include <vector>
@@ -38,6 +40,13 @@ class watchable_base : private NodeT::signal_type::forwarder_type
     const node_ptr_t& node() const& { return node_; }
     node_ptr_t&& node() && { return std::move(node_); }
 
+    const value_t& last_() const
+    {
+        if (!node_)
+            LAGER_THROW(std::runtime_error("Accessing uninitialized reader"));
+        return node_->last();
+    }
+
     friend class detail::access;
     template <typename T>
     friend class watchable_base;
@@ -99,11 +108,11 @@ public:
     template <typename CallbackT>
     auto&& bind(CallbackT&& callback)
     {
-        callback(node()->last());
+        callback(last_());
         return watch(std::forward<CallbackT>(callback));
     }
 
-    void nudge() { base_t::operator()(node()->last()); }
+    void nudge() { base_t::operator()(last_()); }
 
     void unbind()
     {
-- 
2.43.0


From 1565ad3b3bd2dbb4d8f6e4772b2169c76a97898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:05 +0000
Subject: [PATCH 14/28] fix: force_opt does not give away the value its setter
 falls back to

---
 lager/lenses/optional.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lager/lenses/optional.hpp b/lager/lenses/optional.hpp
index b05f06a..3364a7c 100644
--- a/lager/lenses/optional.hpp
+++ b/lager/lenses/optional.hpp
@@ -150,7 +150,8 @@ ZUG_INLINE_CONSTEXPR auto force_opt = zug::comp([](auto&& f) {
     return [f = LAGER_FWD(f)](auto&& p) {
         using opt_t = std::optional<std::decay_t<decltype(p)>>;
         auto opt    = opt_t{LAGER_FWD(p)};
-        return f(std::move(opt))([&](auto&& x) -> decltype(auto) {
+        // the setter falls back to the value, so it must not be given away
+        return f(opt_t{opt})([&](auto&& x) -> decltype(auto) {
             if constexpr (detail::is_optional<std::decay_t<decltype(x)>>::value)
                 return LAGER_FWD(x).value_or(*std::move(opt));
             else
-- 
2.43.0


From 8e21fdccb70136ae1445b4d8b852ef3891f401b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:05 +0000
Subject: [PATCH 15/28] fix: zip views a moved tuple without consuming it

---
 lager/lenses/tuple.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lager/lenses/tuple.hpp b/lager/lenses/tuple.hpp
index 8a19c6f..421b3b8 100644
--- a/lager/lenses/tuple.hpp
+++ b/lager/lenses/tuple.hpp
@@ -146,8 +146,9 @@ auto zip(Lenses&&... lenses)
         [lens_tuple = std::make_tuple(LAGER_FWD(lenses)...)](auto&& f) {
             return [&, f = LAGER_FWD(f)](auto&& whole_tuple) {
                 using Whole = std::decay_t<decltype(whole_tuple)>;
+                // viewing must not consume the whole, the setter needs it too
                 return f(detail::apply_zip<Whole>(
-                    detail::fobj_view, lens_tuple, LAGER_FWD(whole_tuple)))(
+                    detail::fobj_view, lens_tuple, whole_tuple))(
                     [&](auto&& part_tuple) {
                         return detail::apply_zip<Whole>(detail::fobj_set,
                                                         lens_tuple,
-- 
2.43.0


From 2612e39476c0ca468495606232650e44635f1724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:05 +0000
Subject: [PATCH 16/28] fix: at does not insert an absent key into tables

---
 lager/lenses/at.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lager/lenses/at.hpp b/lager/lenses/at.hpp
index 9e4bbdf..f25d7e2 100644
--- a/lager/lenses/at.hpp
+++ b/lager/lenses/at.hpp
@@ -101,9 +101,10 @@ template <
                      int> = 0>
 std::decay_t<Whole> at_setter_impl(Whole&& whole, Part&& part, Key&& key)
 {
-    if (part.has_value()) {
+    if (maybe_has_key(whole, key) && part.has_value()) {
         LAGER_TRY
         {
+            (void) whole.at(std::forward<Key>(key));
             return std::forward<Whole>(whole).insert(
                 std::forward<Part>(part).value());
         }
-- 
2.43.0


From 518eaaaf28cfbead34e2c5c725e13628c9ef1dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 17/28] fix: recognize effects made of noop as empty, also
 after conversions

---
 lager/effect.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index 47fb7cb..4d81cbd 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -16,6 +16,22 @@
 
 namespace lager {
 
+namespace detail {
+
+/*!
+ * What effects made of `noop` hold, such that they can be recognized as empty.
+ */
+struct noop_effect
+{
+    template <typename Ctx>
+    future operator()(Ctx&&) const
+    {
+        return {};
+    }
+};
+
+} // namespace detail
+
 //! @defgroup effects
 //! @{
 
@@ -53,7 +69,14 @@ lager::effect<lager::actions<...>, ...> " //
                                    std::is_convertible_v<Deps, D2>,
                                int> = 0>
     effect(effect<A2, D2> e)
-        : base_t{static_cast<typename effect<A2, D2>::base_t&&>(e)}
+        : base_t{e.template target<detail::noop_effect>()
+                     ? base_t{detail::noop_effect{}}
+                     : base_t{static_cast<typename effect<A2, D2>::base_t&&>(
+                           e)}}
+    {}
+
+    effect(noop_t)
+        : base_t{detail::noop_effect{}}
     {}
 
     template <
@@ -187,7 +210,7 @@ constexpr auto has_effect_v = has_effect<Reducer, Model, Action, Deps>::value;
 template <typename Ctx>
 bool is_empty_effect(const std::function<future(Ctx)>& v)
 {
-    return !v || v.template target<decltype(noop)>() == &noop;
+    return !v || v.template target<detail::noop_effect>();
 }
 
 template <typename Action, typename Deps>
-- 
2.43.0


From e6a3b0ad13eb9ced4cfd426436f56448f3a5d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:49 +0000
Subject: [PATCH 18/28] fix: move the tree debugger to the branch it just added

When an action is taken from an entry that already has a branch, the
action is recorded in a further branch of that entry, but the cursor was
moved to the first one.
---
 lager/debug/tree_debugger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lager/debug/tree_debugger.hpp b/lager/debug/tree_debugger.hpp
index 4c98a84..e91eea1 100644
--- a/lager/debug/tree_debugger.hpp
+++ b/lager/debug/tree_debugger.hpp
@@ -166,7 +166,8 @@ struct tree_debugger
                                                 {pos.branch, pos.step + 1});
                         return history.push_back(step{act, m, {}});
                     } else {
-                        new_cursor = cursor.push_back({0, 0});
+                        new_cursor = cursor.push_back(
+                            {history[pos.step]->branches.size(), 0});
                         return history.update(pos.step, [&](auto node_) {
                             auto node = *node_;
                             node.branches =
-- 
2.43.0


From 9f44d6fee30c1593f868683ddf922a3812ef8e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:34 +0000
Subject: [PATCH 19/28] fix: replace old contents also when loading an empty
 sequence

The load functions of immer vectors, arrays and flex vectors returned
early when the saved sequence was empty, leaving whatever elements the
target had.
---
 lager/extra/cereal/immer_array.hpp       | 3 ---
 lager/extra/cereal/immer_flex_vector.hpp | 3 ---
 lager/extra/cereal/immer_vector.hpp      | 6 ------
 3 files changed, 12 deletions(-)

diff --git a/lager/extra/cereal/immer_array.hpp b/lager/extra/cereal/immer_array.hpp
index 73bc3ae..bdaa461 100644
--- a/lager/extra/cereal/immer_array.hpp
+++ b/lager/extra/cereal/immer_array.hpp
@@ -37,9 +37,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::array<T, MP>& array)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::array<T, MP>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_flex_vector.hpp b/lager/extra/cereal/immer_flex_vector.hpp
index 988a90f..cdbad0b 100644
--- a/lager/extra/cereal/immer_flex_vector.hpp
+++ b/lager/extra/cereal/immer_flex_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar,
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::flex_vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_vector.hpp b/lager/extra/cereal/immer_vector.hpp
index ee49075..7ee64bd 100644
--- a/lager/extra/cereal/immer_vector.hpp
+++ b/lager/extra/cereal/immer_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::vector<T, MP, B, BL>& vector)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
@@ -85,9 +82,6 @@ void CEREAL_LOAD_FUNCTION_NAME(
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<immer::box<T, MP>, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
-- 
2.43.0


From a5e93e90ebe589a696054ddc454d607535a407da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:02 +0000
Subject: [PATCH 20/28] fix: forget old contents when loading maps and sets

The load functions of immer maps and sets added to whatever the target
had, and then refused to have more elements than were saved.
---
 lager/extra/cereal/immer_map.hpp | 2 ++
 lager/extra/cereal/immer_set.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/lager/extra/cereal/immer_map.hpp b/lager/extra/cereal/immer_map.hpp
index 6a59e5c..da02b76 100644
--- a/lager/extra/cereal/immer_map.hpp
+++ b/lager/extra/cereal/immer_map.hpp
@@ -48,6 +48,7 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
@@ -86,6 +87,7 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         K k;
         T x;
diff --git a/lager/extra/cereal/immer_set.hpp b/lager/extra/cereal/immer_set.hpp
index e862839..952bdda 100644
--- a/lager/extra/cereal/immer_set.hpp
+++ b/lager/extra/cereal/immer_set.hpp
@@ -31,6 +31,7 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::set<T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
-- 
2.43.0


From c706b12c4f771037079e454f816a4d3c7f487ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 21/28] fix: pass camel case names of members as C strings

---
 lager/extra/cereal/struct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/cereal/struct.hpp b/lager/extra/cereal/struct.hpp
index f92631f..4c7239b 100644
--- a/lager/extra/cereal/struct.hpp
+++ b/lager/extra/cereal/struct.hpp
@@ -79,7 +79,7 @@ CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, T& v)
 {
     boost::hana::for_each(boost::hana::keys(v), [&](auto&& k) {
         serialize_optional_nvp(ar,
-                               lager::detail::to_camel_case(k.c_str()),
+                               lager::detail::to_camel_case(k.c_str()).c_str(),
                                boost::hana::at_key(v, k));
     });
 }
-- 
2.43.0


From 350789b488ee6da0b4a00d28c872e7930304b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:05 +0000
Subject: [PATCH 22/28] fix: save values with a serialize function inline also
 when they are const

---
 lager/extra/cereal/inline.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lager/extra/cereal/inline.hpp b/lager/extra/cereal/inline.hpp
index 811a857..b21403d 100644
--- a/lager/extra/cereal/inline.hpp
+++ b/lager/extra/cereal/inline.hpp
@@ -69,15 +69,15 @@ void CEREAL_LOAD_INLINE_FUNCTION_NAME(ArchiveType& archive, T& value)
  * Saves `flat` cereal value (without prologue and epilogue)
  */
 template <class ArchiveType, class T, PROCESS_IF(member_serialize)>
-void CEREAL_SAVE_INLINE_FUNCTION_NAME(ArchiveType& archive, T& value)
+void CEREAL_SAVE_INLINE_FUNCTION_NAME(ArchiveType& archive, const T& value)
 {
-    value.CEREAL_SERIALIZE_FUNCTION_NAME(archive);
+    const_cast<T&>(value).CEREAL_SERIALIZE_FUNCTION_NAME(archive);
 }
 
 template <class ArchiveType, class T, PROCESS_IF(non_member_serialize)>
-void CEREAL_SAVE_INLINE_FUNCTION_NAME(ArchiveType& archive, T& value)
+void CEREAL_SAVE_INLINE_FUNCTION_NAME(ArchiveType& archive, const T& value)
 {
-    CEREAL_SERIALIZE_FUNCTION_NAME(archive, value);
+    CEREAL_SERIALIZE_FUNCTION_NAME(archive, const_cast<T&>(value));
 }
 
 template <class ArchiveType, class T, PROCESS_IF(member_save)>
-- 
2.43.0


From 9ddcb96c7e230fc03bbcab532073d4ed5f027e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:29 +0000
Subject: [PATCH 23/28] fix: let the Boost.Asio loop copy asynchronous
 functions that the caller keeps

---
 lager/event_loop/boost_asio.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lager/event_loop/boost_asio.hpp b/lager/event_loop/boost_asio.hpp
index 176da9a..1979487 100644
--- a/lager/event_loop/boost_asio.hpp
+++ b/lager/event_loop/boost_asio.hpp
@@ -19,6 +19,7 @@
 
 #include <functional>
 #include <thread>
+#include <type_traits>
 #include <utility>
 
 namespace lager {
@@ -53,9 +54,9 @@ struct with_boost_asio_event_loop
     {
         using work_t = boost::asio::executor_work_guard<Executor>;
 
-        std::thread([fn = std::move(fn), work = work_t{executor}] {
-            fn();
-        }).detach();
+        std::thread([fn   = std::decay_t<Fn>(std::forward<Fn>(fn)),
+                     work = work_t{executor}]() mutable { fn(); })
+            .detach();
     }
 
     template <typename Fn>
-- 
2.43.0


From 50a6150cc589df63db26cf69eb2eb5a49fd39903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:29 +0000
Subject: [PATCH 24/28] fix: release functions posted to the SDL loop also when
 they throw

---
 lager/event_loop/sdl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 4950468..9379344 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -128,9 +128,9 @@ struct sdl_event_loop
             auto event = SDL_Event{};
             if (SDL_WaitEvent(&event)) {
                 if (event.type == post_event_type_) {
-                    auto fnp = static_cast<event_fn*>(event.user.data1);
+                    auto fnp = std::unique_ptr<event_fn>{
+                        static_cast<event_fn*>(event.user.data1)};
                     (*fnp)();
-                    delete fnp;
                 } else {
                     continue_ = handler(event);
                 }
-- 
2.43.0


From 181aaf85647d0f0b87b10006b1bb65d394b0d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:29 +0000
Subject: [PATCH 25/28] fix: let finish stop an SDL loop that is paused

---
 lager/event_loop/sdl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 9379344..5b42408 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -146,7 +146,7 @@ struct sdl_event_loop
         while (continue_ && !done_) {
             auto event = SDL_Event{};
             while (continue_ && ((!paused_ && SDL_PollEvent(&event)) ||
-                                 (paused_ && SDL_WaitEvent(&event)))) {
+                                 (paused_ && !done_ && SDL_WaitEvent(&event)))) {
                 if (event.type == post_event_type_) {
                     auto fnp = std::unique_ptr<event_fn>{
                         static_cast<event_fn*>(event.user.data1)};
-- 
2.43.0


From 286a04e7ccc661eea515b8953de8aa3bda74358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:29 +0000
Subject: [PATCH 26/28] fix: do not lose functions that the SDL event queue
 refuses

---
 lager/event_loop/sdl.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 5b42408..5ba342f 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -165,9 +165,12 @@ struct sdl_event_loop
 #if !__EMSCRIPTEN__
         auto event = SDL_Event{};
         SDL_zero(event);
+        auto fn          = std::make_unique<event_fn>(std::move(ev));
         event.type       = post_event_type_;
-        event.user.data1 = new event_fn{std::move(ev)};
-        SDL_PushEvent(&event);
+        event.user.data1 = fn.get();
+        if (SDL_PushEvent(&event) != 1)
+            LAGER_THROW(std::runtime_error{"could not push the event!"});
+        fn.release();
 #else
         ::emscripten_set_timeout(
             [](void* data) {
-- 
2.43.0


From 780532c2458411e2cadb06147fd4dba82a375e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:20 +0000
Subject: [PATCH 27/28] fix: let the debug server serve the initial state
 before the first change

---
 lager/debug/http_server.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index cbc4726..517bca2 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -259,6 +259,7 @@ struct http_debug_server_impl
         assert(!server_);
         context_ = std::move(ctx);
         data_    = std::move(data);
+        model_   = data_.get();
 
         auto router = detail::http::router{};
         router
-- 
2.43.0


From 3a88d4eb1f93b4bffc5fda2f68224ea95d5b979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:20 +0000
Subject: [PATCH 28/28] fix: keep the debug server inside of its resources
 directory

---
 lager/debug/http_server.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index 517bca2..77edb1b 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -339,6 +339,9 @@ struct http_debug_server_impl
 
             .route(beast::http::verb::get, "/?.*", [this](auto&& req) {
                 auto req_path = static_cast<std::string>(req.target());
+                // never leave the resources directory
+                if (req_path.find("..") != std::string::npos)
+                    return create_response_(404, "text/html", "Not found");
                 auto rel_path =
                     req_path == "/" ? "/gui/index.html" : "/gui/" + req_path;
                 auto full_path = resources_path() + rel_path;
-- 
2.43.0


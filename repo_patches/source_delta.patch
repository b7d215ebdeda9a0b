From c95183f6044d9bec2fa798937108b371f47bfe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:26 +0000
Subject: [PATCH 01/39] fix: capture the thread's lwp when a record is
 constructed

record_t::lwp() asked the kernel at the time of the call, so a record handed
to the asynchronous sink reported the consumer's lwp next to the producer's
tid. The field for it existed in the record, but was never filled.
---
 src/record.cpp    | 11 ++++++-----
 src/recordbuf.hpp |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/record.cpp b/src/record.cpp
index 79ae526..61a8c38 100644
--- a/src/record.cpp
+++ b/src/record.cpp
@@ -29,6 +29,11 @@ record_t::record_t(severity_t severity,
     inner.timestamp = time_point();
 
     inner.tid = ::pthread_self();
+#if defined(__linux__)
+    inner.lwp = static_cast<std::uint64_t>(::syscall(SYS_gettid));
+#else
+    inner.lwp = 0;
+#endif
 
     inner.attributes = attributes;
 }
@@ -54,11 +59,7 @@ auto record_t::pid() const noexcept -> std::uint64_t {
 }
 
 auto record_t::lwp() const noexcept -> std::uint64_t {
-#if defined(__linux__)
-    return ::syscall(SYS_gettid);
-#else
-    return 0;
-#endif
+    return inner().lwp;
 }
 
 auto record_t::tid() const noexcept -> std::thread::native_handle_type {
diff --git a/src/recordbuf.hpp b/src/recordbuf.hpp
index bd238e6..84c2565 100644
--- a/src/recordbuf.hpp
+++ b/src/recordbuf.hpp
@@ -133,6 +133,7 @@ public:
         inner.formatted = formatted.view;
         inner.severity = record.severity();
         inner.timestamp = record.timestamp();
+        inner.lwp = record.lwp();
         inner.tid = record.tid();
         inner.attributes = pack;
     }
-- 
2.43.0


From 785e6d9b7240f4dfa08f62ee54f5033b79b866a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:19 +0000
Subject: [PATCH 02/39] fix: construct queued records in the asynchronous
 sink's raw cells

The queue hands out uninitialised memory and destroys its content on dequeue,
but emit() assigned to it: the assignment freed whatever the previous lap had
left there (double free on the second lap, crash on non-zeroed memory). The
copy is now built before a cell is claimed and moved in place, so it also can
no longer throw while a claimed cell is unpublished.
---
 src/sink/asynchronous.p.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index de9f014..1a93e00 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -92,6 +92,8 @@ auto asynchronous_t::capacity() const -> std::size_t {
 }
 
 auto asynchronous_t::emit(const record_t& record, const string_view& message) -> void {
+    value_type value{recordbuf_t(record), message.to_string()};
+
     while (true) {
         // TODO: Uncomment.
         // switch (filter->filter(record, message)) {
@@ -102,8 +104,9 @@ auto asynchronous_t::emit(const record_t& record, const string_view& message) ->
         //     return;
         // }
 
-        const auto enqueued = queue.enqueue_with([&](value_type& value) {
-            value = {recordbuf_t(record), message.to_string()};
+        // The cell is raw memory: the queue destroys its content on dequeue and never constructs it.
+        const auto enqueued = queue.enqueue_with([&](value_type& cell) {
+            new (&cell) value_type(std::move(value));
         });
 
         if (enqueued) {
-- 
2.43.0


From 2f5084e1c3e0305c5be6bbe6fec2a46fe623eda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:25 +0000
Subject: [PATCH 03/39] fix: do not lose records enqueued while the
 asynchronous sink stops

The consumer looked at the queue first and at the stop flag second, so a record
enqueued between the two, right before the destructor raised the flag, was
dropped.
---
 src/sink/asynchronous.p.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index 1a93e00..efb6127 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -125,12 +125,15 @@ auto asynchronous_t::emit(const record_t& record, const string_view& message) ->
 
 auto asynchronous_t::run() -> void {
     while (true) {
+        // Must be read before the queue: whatever was enqueued before the stop is then seen below.
+        const bool stopping = stopped;
+
         value_type result;
         const auto dequeued = queue.dequeue_with([&](value_type& value) {
             result = std::move(value);
         });
 
-        if (stopped && !dequeued) {
+        if (stopping && !dequeued) {
             return;
         }
 
-- 
2.43.0


From d9b51fa9a8430aecb8df1daa064d72462b238a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 04/39] fix: survive exceptions thrown by the sink wrapped into
 asynchronous one

They are documented as hidden from the application, but were rethrown out of
the consumer thread, which terminates the process.
---
 src/sink/asynchronous.p.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index efb6127..f41a744 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -140,11 +140,12 @@ auto asynchronous_t::run() -> void {
         if (dequeued) {
             try {
                 wrapped->emit(result.record.into_view(), result.message);
-                overflow_policy->wakeup();
             } catch (...) {
-                throw;
+                // Exceptions are hidden from the application, the thread must survive them.
                 // TODO: exception_policy->process();
             }
+
+            overflow_policy->wakeup();
         } else {
             std::this_thread::sleep_for(std::chrono::milliseconds(1));
             // TODO: underflow_policy->underflow(); [wait for enqueue, sleep].
-- 
2.43.0


From e787506e16f393cc6c3d31f38f1c7f7cf090a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:37 +0000
Subject: [PATCH 05/39] fix: honour the overflow policy set in the asynchronous
 sink builder

build() ignored the configured policy and drop() on a temporary selected wait.
---
 src/sink/asynchronous.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.cpp b/src/sink/asynchronous.cpp
index d60d060..9883ae2 100644
--- a/src/sink/asynchronous.cpp
+++ b/src/sink/asynchronous.cpp
@@ -39,7 +39,7 @@ auto builder<sink::asynchronous_t>::wait() & -> builder& {
 }
 
 auto builder<sink::asynchronous_t>::drop() && -> builder&& {
-    return std::move(wait());
+    return std::move(drop());
 }
 
 auto builder<sink::asynchronous_t>::drop() & -> builder& {
@@ -52,7 +52,8 @@ auto builder<sink::asynchronous_t>::wait() && -> builder&& {
 }
 
 auto builder<sink::asynchronous_t>::build() && -> std::unique_ptr<sink_t> {
-    return blackhole::make_unique<sink::asynchronous_t>(std::move(d->wrapped), d->factor);
+    return blackhole::make_unique<sink::asynchronous_t>(std::move(d->wrapped), d->factor,
+        std::move(d->overflow_policy));
 }
 
 auto factory<sink::asynchronous_t>::type() const noexcept -> const char* {
-- 
2.43.0


From cad7f142f3af2d3de4b8f7770d857d98575728c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 06/39] fix: default the optional parameters of a configured
 asynchronous sink

An absent "factor" or "overflow" dereferenced an empty optional. They now have
the same defaults as the builder.
---
 src/sink/asynchronous.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.cpp b/src/sink/asynchronous.cpp
index 9883ae2..b676d0b 100644
--- a/src/sink/asynchronous.cpp
+++ b/src/sink/asynchronous.cpp
@@ -71,8 +71,9 @@ auto factory<sink::asynchronous_t>::from(const config::node_t& config) const ->
 
     auto factory = registry.sink(type.get());
 
-    auto factor = config["factor"].to_uint64().get();
-    auto overflow = sink::overflow_policy_factory_t().create(config["overflow"].to_string().get());
+    auto factor = config["factor"].to_uint64().get_value_or(10);
+    auto overflow = sink::overflow_policy_factory_t().create(
+        config["overflow"].to_string().get_value_or("wait"));
 
     // It's safe to unwrap here, because we've already checked that there is "sink" child and it's
     // an object.
-- 
2.43.0


From 91fece9863cccfe6228b4341a297f8530e671d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:39 +0000
Subject: [PATCH 07/39] fix: report an absent pattern of a configured string
 formatter

It dereferenced an empty optional instead of throwing.
---
 src/formatter/string.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 1f54687..f74622d 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -2,6 +2,7 @@
 
 #include <array>
 
+#include <boost/optional/optional.hpp>
 #include <boost/type_traits/remove_cv.hpp>
 #include <boost/variant/apply_visitor.hpp>
 #include <boost/variant/get.hpp>
@@ -19,6 +20,7 @@
 #include "../memory.hpp"
 #include "../procname.hpp"
 #include "../util/deleter.hpp"
+#include "../util/optional.hpp"
 #include "../util/time.hpp"
 #include "string/parser.hpp"
 #include "string/token.hpp"
@@ -343,6 +345,8 @@ public:
 using formatter::severity_map;
 using formatter::string_t;
 
+using util::value_or;
+
 class builder<string_t>::inner_t {
 public:
     std::string pattern;
@@ -377,7 +381,9 @@ auto factory<string_t>::type() const noexcept -> const char* {
 }
 
 auto factory<string_t>::from(const config::node_t& config) const -> std::unique_ptr<formatter_t> {
-    auto pattern = config["pattern"].to_string().get();
+    auto pattern = value_or(config["pattern"].to_string(), []() -> std::string {
+        throw std::invalid_argument(R"(parameter "pattern" is required)");
+    });
 
     if (auto mapping = config["sevmap"]) {
         std::vector<std::string> sevmap;
-- 
2.43.0


From 4f3c40ce043ae4ec65ca94c40b78604d78e60e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:46 +0000
Subject: [PATCH 08/39] fix: print unmapped negative severities as they are

The mapping built from the config took the severity as unsigned, so -1 was
printed as 18446744073709551615.
---
 src/formatter/string.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index f74622d..3d3a84c 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -391,9 +391,9 @@ auto factory<string_t>::from(const config::node_t& config) const -> std::unique_
             sevmap.emplace_back(config.to_string());
         });
 
-        auto fn = [=](std::size_t severity, const std::string& spec, writer_t& writer) {
-            if (severity < sevmap.size()) {
-                writer.write(spec, sevmap[severity]);
+        auto fn = [=](int severity, const std::string& spec, writer_t& writer) {
+            if (severity >= 0 && static_cast<std::size_t>(severity) < sevmap.size()) {
+                writer.write(spec, sevmap[static_cast<std::size_t>(severity)]);
             } else {
                 writer.write(spec, severity);
             }
-- 
2.43.0


From d890d605f8e6cfe8c74f4653630b018be6cc0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:32 +0000
Subject: [PATCH 09/39] fix: write string attribute views and facade patterns
 with their length

---
 include/blackhole/extensions/facade.hpp     | 2 +-
 include/blackhole/extensions/facade.inl.hpp | 6 +++---
 src/formatter/json.cpp                      | 2 +-
 src/formatter/string.cpp                    | 2 +-
 src/formatter/tskv.cpp                      | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/blackhole/extensions/facade.hpp b/include/blackhole/extensions/facade.hpp
index 52c3ba9..36b866f 100644
--- a/include/blackhole/extensions/facade.hpp
+++ b/include/blackhole/extensions/facade.hpp
@@ -142,7 +142,7 @@ logger_facade<Logger>::select(int severity, const string_view& pattern, const Ar
     typename std::enable_if<!detail::with_attributes<Args...>::value>::type
 {
     fmt::MemoryWriter wr;
-    const auto fn = std::bind(&detail::gcc::write_all<Args...>, std::ref(wr), pattern.data(), std::cref(args)...);
+    const auto fn = std::bind(&detail::gcc::write_all<Args...>, std::ref(wr), pattern, std::cref(args)...);
 
     attribute_pack pack;
     inner().log(severity, {pattern, std::cref(fn)}, pack);
diff --git a/include/blackhole/extensions/facade.inl.hpp b/include/blackhole/extensions/facade.inl.hpp
index 25aff16..4d4998e 100644
--- a/include/blackhole/extensions/facade.inl.hpp
+++ b/include/blackhole/extensions/facade.inl.hpp
@@ -17,8 +17,8 @@ namespace gcc {
 
 /// Workaround for GCC versions up to 4.9, which fails to expand variadic pack inside lambdas.
 template<class... Args>
-inline auto write_all(fmt::MemoryWriter& wr, const char* pattern, const Args&... args) -> string_view {
-    wr.write(pattern, args...);
+inline auto write_all(fmt::MemoryWriter& wr, const string_view& pattern, const Args&... args) -> string_view {
+    wr.write(pattern.to_string(), args...);
     return {wr.data(), wr.size()};
 }
 
@@ -87,7 +87,7 @@ struct select_t {
         const attribute_list& attributes) -> void
     {
         fmt::MemoryWriter wr;
-        const auto fn = std::bind(&gcc::write_all<Args...>, std::ref(wr), pattern.data(), std::cref(args)...);
+        const auto fn = std::bind(&gcc::write_all<Args...>, std::ref(wr), pattern, std::cref(args)...);
 
         attribute_pack pack{attributes};
         log.log(severity, {pattern, std::cref(fn)}, pack);
diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 4d7e260..327cc30 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -96,7 +96,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, fmt::StringRef(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 3d3a84c..4578920 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -84,7 +84,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, string_ref(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 8c572e9..fcf686c 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -44,7 +44,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, fmt::StringRef(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
-- 
2.43.0


From 7913810e256b21aeff487ce77a319c8e9d7a6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 10/39] fix: do not undo a concurrent logger reassignment while
 replacing its filter

---
 src/root.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index 7468c7c..f2ce9f5 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -138,13 +138,11 @@ root_logger_t::operator=(root_logger_t&& other) noexcept -> root_logger_t& {
 
 auto
 root_logger_t::filter(filter_t fn) -> void {
-    auto inner = sync->load(this->inner);
+    const auto inner = sync->load(this->inner);
 
     inner->apply([&](inner_t& inner) {
         inner.filter = std::move(fn);
     });
-
-    sync->store(this->inner, std::move(inner));
 }
 
 namespace {
-- 
2.43.0


From 95b07b43c864fb24439e40443d181493bd030e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:07 +0000
Subject: [PATCH 11/39] fix: keep scoped attributes of the logger being
 reassigned

---
 src/root.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index f2ce9f5..d15f7ee 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -127,9 +127,10 @@ root_logger_t::operator=(root_logger_t&& other) noexcept -> root_logger_t& {
     const auto inner = other.sync->load(other.inner);
     sync->store(this->inner, std::move(inner));
 
-    sync->manager.reset(other.sync->manager.get());
-
-    if (sync->manager.get()) {
+    // Scoped attributes attached to this logger must survive reassignment, unless the other one
+    // has its own.
+    if (other.sync->manager.get()) {
+        sync->manager.reset(other.sync->manager.get());
         sync->manager.get()->rebind(sync->manager);
     }
 
-- 
2.43.0


From afada1f43af970429fe28e23103b8a33476665d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 12/39] fix: rebuild the attributes view when a wrapper is
 copied

---
 include/blackhole/wrapper.hpp | 4 ++++
 src/wrapper.cpp               | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/blackhole/wrapper.hpp b/include/blackhole/wrapper.hpp
index d85b0c6..5a4de7b 100644
--- a/include/blackhole/wrapper.hpp
+++ b/include/blackhole/wrapper.hpp
@@ -15,6 +15,10 @@ class wrapper_t : public logger_t {
 public:
     wrapper_t(logger_t& log, attributes_t attributes);
 
+    /// Copies the attributes with the view rebuilt to refer to the copy instead of the source.
+    wrapper_t(const wrapper_t& other);
+    wrapper_t(wrapper_t&& other) = default;
+
     auto attributes() const noexcept -> const view_of<attributes_t>::type& {
         return attributes_view;
     }
diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index ffe9504..1ab6644 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -15,6 +15,10 @@ wrapper_t::wrapper_t(logger_t& log, attributes_t attributes):
     }
 }
 
+wrapper_t::wrapper_t(const wrapper_t& other):
+    wrapper_t(other.inner, other.storage)
+{}
+
 auto wrapper_t::log(severity_t severity, const message_t& message) -> void {
     attribute_pack pack{attributes()};
     inner.log(severity, message, pack);
-- 
2.43.0


From c90392c6eb77f85be1b769d5c682ea215b081366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:17 +0000
Subject: [PATCH 13/39] fix: write non-finite attributes as null in JSON

---
 src/formatter/json.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 327cc30..54eadb7 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -1,6 +1,7 @@
 #include "blackhole/formatter/json.hpp"
 
 #include <array>
+#include <cmath>
 #include <set>
 #include <unordered_map>
 
@@ -44,17 +45,25 @@ struct visitor_t {
         node.AddMember(rapidjson::StringRef(name.data(), name.size()), rapidjson::kNullType, allocator);
     }
 
-    // For `bool`, `std::int64_t`, `std::uint64_t` and `double` types.
+    // For `bool`, `std::int64_t` and `std::uint64_t` types.
     template<typename T>
     auto operator()(T value) -> void {
         static_assert(
             std::is_same<T, bool>::value ||
             std::is_same<T, std::int64_t>::value ||
-            std::is_same<T, std::uint64_t>::value ||
-            std::is_same<T, double>::value, "type mismatch");
+            std::is_same<T, std::uint64_t>::value, "type mismatch");
         node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
     }
 
+    // JSON has no representation for neither infinity nor NaN.
+    auto operator()(double value) -> void {
+        if (std::isfinite(value)) {
+            node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
+        } else {
+            (*this)(nullptr);
+        }
+    }
+
     auto operator()(const string_view& value) -> void {
         node.AddMember(rapidjson::StringRef(name.data(), name.size()),
             rapidjson::StringRef(value.data(), value.size()), allocator);
-- 
2.43.0


From 7bc0089b721b69daeb1ced3af6fc19bf06fe93ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:24 +0000
Subject: [PATCH 14/39] fix: do not abort when a JSON route is occupied by an
 attribute

---
 src/formatter/json.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 54eadb7..047f93f 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -193,12 +193,15 @@ public:
         // TODO: Here we can avoid a temporary string construction by using multi indexed
         // containers.
         const auto it = routing.find(name.to_string());
+        const auto& pointer = it == routing.end() ? rest : it->second;
+        auto& node = pointer.GetWithDefault(root, rapidjson::kObjectType);
 
-        if (it == routing.end()) {
-            return rest.GetWithDefault(root, rapidjson::kObjectType);
-        } else {
-            return it->second.GetWithDefault(root, rapidjson::kObjectType);
+        // The place can be already occupied by an attribute value, which can't have members.
+        if (!node.IsObject()) {
+            return root;
         }
+
+        return node;
     }
 
     template<typename Document>
-- 
2.43.0


From 0df799cc67045cf1f98620e947a66fb850bb360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:32 +0000
Subject: [PATCH 15/39] fix: reject invalid JSON pointers in formatter routes

---
 src/formatter/json.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 047f93f..b2447f8 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -186,6 +186,16 @@ public:
                 routing.insert({name, rapidjson::Pointer(route.first)});
             }
         }
+
+        if (!rest.IsValid()) {
+            throw std::invalid_argument("route is not a valid JSON pointer");
+        }
+
+        for (const auto& route : routing) {
+            if (!route.second.IsValid()) {
+                throw std::invalid_argument("route is not a valid JSON pointer");
+            }
+        }
     }
 
     template<typename Document>
-- 
2.43.0


From 5d6217dc392c6c58e46476fb6a8a4471c106835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:40 +0000
Subject: [PATCH 16/39] fix: accept empty views without data in the JSON
 formatter

---
 src/formatter/json.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index b2447f8..f7e0b9b 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -33,6 +33,11 @@ inline namespace v1 {
 namespace formatter {
 namespace {
 
+/// Makes a string reference from the given view, which data is allowed to be null when empty.
+auto make_ref(const string_view& value) -> rapidjson::Value::StringRefType {
+    return rapidjson::StringRef(value.data() ? value.data() : "", value.size());
+}
+
 struct visitor_t {
     typedef void result_type;
 
@@ -42,7 +47,7 @@ struct visitor_t {
     const string_view& name;
 
     auto operator()(std::nullptr_t) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()), rapidjson::kNullType, allocator);
+        node.AddMember(make_ref(name), rapidjson::kNullType, allocator);
     }
 
     // For `bool`, `std::int64_t` and `std::uint64_t` types.
@@ -52,26 +57,26 @@ struct visitor_t {
             std::is_same<T, bool>::value ||
             std::is_same<T, std::int64_t>::value ||
             std::is_same<T, std::uint64_t>::value, "type mismatch");
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
+        node.AddMember(make_ref(name), value, allocator);
     }
 
     // JSON has no representation for neither infinity nor NaN.
     auto operator()(double value) -> void {
         if (std::isfinite(value)) {
-            node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
+            node.AddMember(make_ref(name), value, allocator);
         } else {
             (*this)(nullptr);
         }
     }
 
     auto operator()(const string_view& value) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
-            rapidjson::StringRef(value.data(), value.size()), allocator);
+        node.AddMember(make_ref(name),
+            make_ref(value), allocator);
     }
 
     // For temporary buffers, rapidjson will copy the data.
     auto operator()(const char* data, std::size_t size) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
+        node.AddMember(make_ref(name),
             rapidjson::Value(data, static_cast<unsigned int>(size), allocator), allocator);
     }
 
@@ -79,7 +84,7 @@ struct visitor_t {
         writer_t wr;
         value(wr);
 
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
+        node.AddMember(make_ref(name),
             wr.result().to_string(), allocator);
     }
 };
-- 
2.43.0


From deccc27b1cedbfe9dafe072746fd79ed52a4aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:43 +0000
Subject: [PATCH 17/39] fix: reject string patterns with an unclosed
 placeholder

---
 src/formatter/string/parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/formatter/string/parser.cpp b/src/formatter/string/parser.cpp
index 9985a29..ff31809 100644
--- a/src/formatter/string/parser.cpp
+++ b/src/formatter/string/parser.cpp
@@ -167,6 +167,10 @@ parser_t::next() -> boost::optional<token_t> {
     }
 
     if (pos == std::end(pattern)) {
+        if (state == state_t::placeholder) {
+            throw_<illformed_t>();
+        }
+
         return boost::none;
     }
 
@@ -208,7 +212,8 @@ parser_t::parse_spec() -> std::string {
         ++pos;
     }
 
-    return spec;
+    // Unclosed placeholder.
+    throw_<illformed_t>();
 }
 
 auto
-- 
2.43.0


From 96c4e6d56a271ef7a239642dc70336a20e580e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:51 +0000
Subject: [PATCH 18/39] fix: do not format empty string views as C-strings

---
 src/formatter/json.cpp   |  5 +++--
 src/formatter/string.cpp |  5 +++--
 src/formatter/tskv.cpp   |  3 ++-
 src/util/string_ref.hpp  | 25 +++++++++++++++++++++++++
 4 files changed, 33 insertions(+), 5 deletions(-)
 create mode 100644 src/util/string_ref.hpp

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index f7e0b9b..8a99da5 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -26,6 +26,7 @@
 #include "../datetime.hpp"
 #include "../memory.hpp"
 #include "../util/deleter.hpp"
+#include "../util/string_ref.hpp"
 #include "json.hpp"
 
 namespace blackhole {
@@ -110,7 +111,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, fmt::StringRef(value.data(), value.size()));
+        writer.write(spec, util::string_ref(value));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
@@ -346,7 +347,7 @@ private:
         const auto it = inner.formatting.find(std::string(name.data(), name.size()));
         if (it != std::end(inner.formatting)) {
             writer_t wr;
-            wr.write(it->second, fmt::StringRef(data, size));
+            wr.write(it->second, util::string_ref(data, size));
             visitor(wr.inner.data(), wr.inner.size());
         } else {
             visitor(data, size);
diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 4578920..7eddb8b 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -21,6 +21,7 @@
 #include "../procname.hpp"
 #include "../util/deleter.hpp"
 #include "../util/optional.hpp"
+#include "../util/string_ref.hpp"
 #include "../util/time.hpp"
 #include "string/parser.hpp"
 #include "string/token.hpp"
@@ -51,7 +52,7 @@ using string::literal_t;
 using string::token_t;
 using string::parser_t;
 
-typedef fmt::StringRef string_ref;
+using util::string_ref;
 
 }  // namespace
 
@@ -192,7 +193,7 @@ public:
     }
 
     auto operator()(const ph::process<name>& token) const -> void {
-        writer.write(token.spec, procname().data());
+        writer.write(token.spec, string_ref(procname()));
     }
 
     auto operator()(const ph::thread<id>& token) const -> void {
diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index fcf686c..f3d39d9 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -16,6 +16,7 @@
 #include "../datetime.hpp"
 #include "../memory.hpp"
 #include "../util/deleter.hpp"
+#include "../util/string_ref.hpp"
 #include "string/token.hpp"
 
 namespace blackhole {
@@ -44,7 +45,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, fmt::StringRef(value.data(), value.size()));
+        writer.write(spec, util::string_ref(value));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
diff --git a/src/util/string_ref.hpp b/src/util/string_ref.hpp
new file mode 100644
index 0000000..f858cab
--- /dev/null
+++ b/src/util/string_ref.hpp
@@ -0,0 +1,25 @@
+#pragma once
+
+#include "blackhole/extensions/format.hpp"
+#include "blackhole/stdext/string_view.hpp"
+
+namespace blackhole {
+inline namespace v1 {
+namespace util {
+
+/// Makes a cppformat's string reference from the given view.
+///
+/// The library treats a reference with zero size as a C-string of unknown length, so empty views,
+/// which data may be either null or not terminated, must not be passed as is.
+inline auto string_ref(const char* data, std::size_t size) noexcept -> fmt::StringRef {
+    return size == 0 ? fmt::StringRef("", 0) : fmt::StringRef(data, size);
+}
+
+/// \overload
+inline auto string_ref(const stdext::string_view& value) noexcept -> fmt::StringRef {
+    return string_ref(value.data(), value.size());
+}
+
+}  // namespace util
+}  // namespace v1
+}  // namespace blackhole
-- 
2.43.0


From b7f9831d4bf595d8aa59e7cb2a9c7fedef61eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:32 +0000
Subject: [PATCH 19/39] fix: escape constant values in the TSKV formatter

---
 src/formatter/tskv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index f3d39d9..d0ae0fc 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -121,7 +121,7 @@ public:
 
     auto add_constants() -> void {
         for (const auto& kv : data.attributes) {
-            add(kv.first, kv.second);
+            add(kv.first, string_view(kv.second));
         }
     }
 
-- 
2.43.0


From e10f6fd7a84258de0941c0efc5d45ffd570deab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:42 +0000
Subject: [PATCH 20/39] fix: escape control characters in TSKV keys

---
 src/formatter/tskv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index d0ae0fc..4733c3a 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -185,7 +185,7 @@ private:
                 wr.inner << "\\=";
                 break;
             default:
-                wr.inner << *it;
+                write_escaped_val(string_view(it, 1));
             };
         }
     }
-- 
2.43.0


From 1b027121ae4d1c06752e48ea0b7ba006d4055887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:52 +0000
Subject: [PATCH 21/39] fix: honour renaming and removal of the thread id in
 the TSKV formatter

---
 src/formatter/tskv.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 4733c3a..8fce39c 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -96,13 +96,16 @@ public:
     }
 
     auto add_tid() -> void {
-        wr.write("\ttid={:#x}",
+        fmt::MemoryWriter buffer;
+        buffer.write("{:#x}",
 #ifdef __linux__
             record.tid()
 #elif __APPLE__
             reinterpret_cast<unsigned long>(record.tid())
 #endif
         );
+
+        add("tid", string_view(buffer.data(), buffer.size()));
     }
 
     auto add_message() -> void {
-- 
2.43.0


From 80b94f12b8c77523d5543cf03907092de413041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:06 +0000
Subject: [PATCH 22/39] fix: do not close the system logger while creating the
 syslog sink from config

---
 src/sink/syslog.cpp | 6 +++---
 src/sink/syslog.hpp | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sink/syslog.cpp b/src/sink/syslog.cpp
index 6bd4941..f1b55b0 100644
--- a/src/sink/syslog.cpp
+++ b/src/sink/syslog.cpp
@@ -67,7 +67,7 @@ auto factory<sink::syslog_t>::type() const noexcept -> const char* {
 
 auto factory<sink::syslog_t>::from(const config::node_t& config) const -> std::unique_ptr<sink_t> {
     (void)registry;
-    sink::syslog_t syslog;
+    std::unique_ptr<sink::syslog_t> syslog(new sink::syslog_t);
 
     if (auto mapping = config["priorities"]) {
         std::vector<int> priorities;
@@ -75,10 +75,10 @@ auto factory<sink::syslog_t>::from(const config::node_t& config) const -> std::u
             priorities.emplace_back(config.to_sint64());
         });
 
-        syslog.priorities(std::move(priorities));
+        syslog->priorities(std::move(priorities));
     }
 
-    return std::unique_ptr<sink_t>(new sink::syslog_t(std::move(syslog)));
+    return std::move(syslog);
 }
 
 }  // namespace v1
diff --git a/src/sink/syslog.hpp b/src/sink/syslog.hpp
index 0484549..68aa801 100644
--- a/src/sink/syslog.hpp
+++ b/src/sink/syslog.hpp
@@ -19,12 +19,14 @@ class syslog_t : public sink_t {
 
 public:
     syslog_t();
+    // The system logger keeps pointing to the identity until it's closed by the destructor, hence
+    // both copying and moving are prohibited.
     syslog_t(const syslog_t& other) = delete;
-    syslog_t(syslog_t&& other) = default;
+    syslog_t(syslog_t&& other) = delete;
     ~syslog_t();
 
     auto operator=(const syslog_t& other) -> syslog_t& = delete;
-    auto operator=(syslog_t&& other) -> syslog_t& = default;
+    auto operator=(syslog_t&& other) -> syslog_t& = delete;
 
     auto option() const noexcept -> int;
     auto facility() const noexcept -> int;
-- 
2.43.0


From 54b46634f05a7f58209d27b4fd2ecc0386153545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 23/39] fix: reject out of range ports of configured socket
 sinks

---
 src/sink/socket/tcp.cpp | 5 +++++
 src/sink/socket/udp.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/sink/socket/tcp.cpp b/src/sink/socket/tcp.cpp
index 4cd246b..31dd48c 100644
--- a/src/sink/socket/tcp.cpp
+++ b/src/sink/socket/tcp.cpp
@@ -1,3 +1,4 @@
+#include <limits>
 #include <mutex>
 
 #include <boost/asio/write.hpp>
@@ -154,6 +155,10 @@ auto factory<tcp_t>::from(const config::node_t& config) const -> std::unique_ptr
         throw std::invalid_argument(R"(parameter "port" is required)");
     });
 
+    if (port > std::numeric_limits<std::uint16_t>::max()) {
+        throw std::invalid_argument(R"(parameter "port" is out of range)");
+    }
+
     return blackhole::make_unique<tcp_t>(host, static_cast<std::uint16_t>(port));
 }
 
diff --git a/src/sink/socket/udp.cpp b/src/sink/socket/udp.cpp
index f819b48..97bf278 100644
--- a/src/sink/socket/udp.cpp
+++ b/src/sink/socket/udp.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include <boost/lexical_cast.hpp>
 #include <boost/optional/optional.hpp>
 
@@ -55,6 +57,10 @@ auto factory<udp_t>::from(const config::node_t& config) const -> std::unique_ptr
         throw std::invalid_argument(R"(parameter "port" is required)");
     });
 
+    if (port > std::numeric_limits<std::uint16_t>::max()) {
+        throw std::invalid_argument(R"(parameter "port" is out of range)");
+    }
+
     return blackhole::make_unique<udp_t>(host, static_cast<std::uint16_t>(port));
 }
 
-- 
2.43.0


From 72c5482e1b5985b835ddc223019a911f8492aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 24/39] fix: reject out of range priorities of the configured
 syslog sink

---
 src/sink/syslog.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sink/syslog.cpp b/src/sink/syslog.cpp
index f1b55b0..df5cd1f 100644
--- a/src/sink/syslog.cpp
+++ b/src/sink/syslog.cpp
@@ -2,6 +2,9 @@
 
 #include <syslog.h>
 
+#include <limits>
+#include <stdexcept>
+
 #include "blackhole/config/node.hpp"
 #include "blackhole/config/option.hpp"
 #include "blackhole/stdext/string_view.hpp"
@@ -72,7 +75,13 @@ auto factory<sink::syslog_t>::from(const config::node_t& config) const -> std::u
     if (auto mapping = config["priorities"]) {
         std::vector<int> priorities;
         mapping.each([&](const config::node_t& config) {
-            priorities.emplace_back(config.to_sint64());
+            const auto priority = config.to_sint64();
+
+            if (priority < std::numeric_limits<int>::min() || priority > std::numeric_limits<int>::max()) {
+                throw std::invalid_argument("syslog priority is out of range");
+            }
+
+            priorities.emplace_back(static_cast<int>(priority));
         });
 
         syslog->priorities(std::move(priorities));
-- 
2.43.0


From 39604586978052c71f671a3615ca82915202a2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:57 +0000
Subject: [PATCH 25/39] fix: keep null characters in strings read from JSON
 config

---
 src/config/json.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/config/json.hpp b/src/config/json.hpp
index 2d8904c..391d4d6 100644
--- a/src/config/json.hpp
+++ b/src/config/json.hpp
@@ -134,7 +134,7 @@ public:
 
     auto to_string() const -> std::string {
         if (is_string()) {
-            return value.GetString();
+            return {value.GetString(), value.GetStringLength()};
         }
 
         type_mismatch("string");
@@ -156,7 +156,8 @@ public:
         }
 
         for (auto it = value.MemberBegin(); it != value.MemberEnd(); ++it) {
-            fn(it->name.GetString(), json_t(it->value, advance(it->name.GetString())));
+            const std::string key(it->name.GetString(), it->name.GetStringLength());
+            fn(key, json_t(it->value, advance(key)));
         }
     }
 
-- 
2.43.0


From 6a568e50b64292ecd258ac85aba7d4605e125f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 26/39] fix: reopen a file after write failure

---
 src/sink/file.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index 8c4cf66..b765340 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -153,7 +153,15 @@ auto file_t::emit(const record_t& record, const string_view& formatted) -> void
     const auto filename = this->filename(record);
 
     std::lock_guard<std::mutex> lock(mutex);
-    backend(filename).write(formatted);
+    auto& backend = this->backend(filename);
+
+    try {
+        backend.write(formatted);
+    } catch (...) {
+        // A failed stream never recovers by itself, so drop it to reopen the file next time.
+        data.backends.erase(filename);
+        throw;
+    }
 }
 
 }  // namespace sink
-- 
2.43.0


From 88143c65f1dfd5ae86e197460d2c36f9571a588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:43 +0000
Subject: [PATCH 27/39] fix: reject data sizes that overflow

---
 src/sink/file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index b765340..74c256b 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -76,6 +76,10 @@ auto parse_dunit(const std::string& encoded) -> std::uint64_t {
         throw std::invalid_argument("unknown data unit - " + unit);
     }
 
+    if (base > std::numeric_limits<std::uint64_t>::max() / it->second) {
+        throw std::invalid_argument("data size is out of range - " + encoded);
+    }
+
     return base * it->second;
 }
 
-- 
2.43.0


From 53c1ca0b3e1550df9912371eda86b291cac240ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:47 +0000
Subject: [PATCH 28/39] fix: do not pass negative characters to the character
 classification functions

---
 src/formatter/string/parser.cpp | 4 +++-
 src/sink/file.cpp               | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/formatter/string/parser.cpp b/src/formatter/string/parser.cpp
index ff31809..2bea42e 100644
--- a/src/formatter/string/parser.cpp
+++ b/src/formatter/string/parser.cpp
@@ -267,7 +267,9 @@ parser_t::parse_placeholder() -> token_t {
     while (pos != std::end(pattern)) {
         const auto ch = *pos;
 
-        if (std::isalpha(ch) || std::isdigit(ch) || ch == '_' || ch == '.') {
+        const auto code = static_cast<unsigned char>(ch);
+
+        if (std::isalpha(code) || std::isdigit(code) || ch == '_' || ch == '.') {
             name.push_back(ch);
         } else {
             // We have a spec.
diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index 74c256b..ebd35d7 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -50,7 +50,7 @@ auto bytecount_factory_t::create() const -> std::unique_ptr<flusher_t> {
 
 auto parse_dunit(const std::string& encoded) -> std::uint64_t {
     const auto ipos = std::find_if(std::begin(encoded), std::end(encoded), [&](char c) -> bool {
-        return !std::isdigit(c);
+        return !std::isdigit(static_cast<unsigned char>(c));
     });
 
     if (ipos == std::end(encoded)) {
-- 
2.43.0


From 584ee43e233cad0bd5ac146f98e930e2182c365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 29/39] fix: synchronize all writers to the standard streams
 with the same mutex

---
 src/handler/dev.cpp  | 13 ++-----------
 src/root.cpp         |  3 +++
 src/sink/console.cpp | 15 +++------------
 src/util/console.hpp | 18 ++++++++++++++++++
 4 files changed, 26 insertions(+), 23 deletions(-)
 create mode 100644 src/util/console.hpp

diff --git a/src/handler/dev.cpp b/src/handler/dev.cpp
index 31214a9..0027cec 100644
--- a/src/handler/dev.cpp
+++ b/src/handler/dev.cpp
@@ -15,6 +15,7 @@
 #include "../attribute.hpp"
 #include "../datetime.hpp"
 #include "../memory.hpp"
+#include "../util/console.hpp"
 #include "../util/deleter.hpp"
 
 namespace blackhole {
@@ -22,16 +23,6 @@ inline namespace v1 {
 namespace experimental {
 namespace handler {
 
-#pragma clang diagnostic push
-#pragma clang diagnostic ignored "-Wglobal-constructors"
-#pragma clang diagnostic ignored "-Wexit-time-destructors"
-
-// Both standard output and error access mutex. Messages written with Blackhole will be
-// synchronized, otherwise an intermixing can occur.
-static std::mutex mutex;
-
-#pragma clang diagnostic pop
-
 namespace {
 
 auto streamfd(const std::ostream& stream) noexcept -> FILE* {
@@ -184,7 +175,7 @@ public:
     auto handle(const record_t& record) -> void {
         auto& stream = std::cout;
 
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<std::mutex> lock(util::console_mutex());
         for (const auto& token : tokens) {
             token(stream, record);
         }
diff --git a/src/root.cpp b/src/root.cpp
index d15f7ee..8f5be5c 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -13,6 +13,7 @@
 #include "blackhole/scope/watcher.hpp"
 
 #include "spinlock.hpp"
+#include "util/console.hpp"
 #include "util/deleter.hpp"
 
 namespace blackhole {
@@ -191,8 +192,10 @@ auto root_logger_t::consume(severity_t severity, const string_view& pattern, att
             try {
                 handler->handle(record);
             } catch (const std::exception& err) {
+                std::lock_guard<std::mutex> lock(util::console_mutex());
                 std::cout << "logging core error occurred: " << err.what() << std::endl;
             } catch (...) {
+                std::lock_guard<std::mutex> lock(util::console_mutex());
                 std::cout << "logging core error occurred: unknown" << std::endl;
             }
         }
diff --git a/src/sink/console.cpp b/src/sink/console.cpp
index 86a2ec3..65eeb47 100644
--- a/src/sink/console.cpp
+++ b/src/sink/console.cpp
@@ -18,6 +18,7 @@
 
 #include "../filter/zen.hpp"
 #include "../memory.hpp"
+#include "../util/console.hpp"
 #include "../util/deleter.hpp"
 #include "console.hpp"
 
@@ -25,16 +26,6 @@ namespace blackhole {
 inline namespace v1 {
 namespace sink {
 
-#pragma clang diagnostic push
-#pragma clang diagnostic ignored "-Wglobal-constructors"
-#pragma clang diagnostic ignored "-Wexit-time-destructors"
-
-// Both standard output and error access mutex. Messages written with Blackhole will be
-// synchronized, otherwise an intermixing can occur.
-static std::mutex mutex;
-
-#pragma clang diagnostic pop
-
 namespace {
 
 auto streamfd(const std::ostream& stream) noexcept -> FILE* {
@@ -97,12 +88,12 @@ auto console_t::emit(const record_t& record, const string_view& formatted) -> vo
     }
 
     if (isatty(stream())) {
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<std::mutex> lock(util::console_mutex());
         mapping(record)
             .write(stream(), formatted.data(), formatted.size());
         stream() << std::endl;
     } else {
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<std::mutex> lock(util::console_mutex());
         stream().write(formatted.data(), static_cast<std::streamsize>(formatted.size()));
         stream() << std::endl;
     }
diff --git a/src/util/console.hpp b/src/util/console.hpp
new file mode 100644
index 0000000..9f1a7a8
--- /dev/null
+++ b/src/util/console.hpp
@@ -0,0 +1,18 @@
+#pragma once
+
+#include <mutex>
+
+namespace blackhole {
+inline namespace v1 {
+namespace util {
+
+/// Both standard output and error access mutex. Messages written with Blackhole will be
+/// synchronized, otherwise an intermixing can occur.
+inline auto console_mutex() -> std::mutex& {
+    static std::mutex mutex;
+    return mutex;
+}
+
+}  // namespace util
+}  // namespace v1
+}  // namespace blackhole
-- 
2.43.0


From 2e31ac6bae07f68f1ca9ff7f409def4cb743e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:25 +0000
Subject: [PATCH 30/39] fix: call user-defined functions with no lock on the
 standard streams held

---
 src/handler/dev.cpp  | 12 +++++++-----
 src/sink/console.cpp |  6 ++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/handler/dev.cpp b/src/handler/dev.cpp
index 0027cec..76cae38 100644
--- a/src/handler/dev.cpp
+++ b/src/handler/dev.cpp
@@ -2,6 +2,7 @@
 
 #include <iostream>
 #include <mutex>
+#include <sstream>
 
 #include <boost/variant/variant.hpp>
 
@@ -173,19 +174,20 @@ public:
     }
 
     auto handle(const record_t& record) -> void {
-        auto& stream = std::cout;
-
-        std::lock_guard<std::mutex> lock(util::console_mutex());
+        // Attributes can be user-defined functions that are allowed to write logs, so they must be
+        // called with no lock held.
+        std::ostringstream stream;
         for (const auto& token : tokens) {
             token(stream, record);
         }
 
-        stream << std::endl;
+        std::lock_guard<std::mutex> lock(util::console_mutex());
+        std::cout << stream.str() << std::endl;
     }
 
 private:
     static auto colorize(std::ostream& stream, termcolor_t color) -> void {
-        if (isatty(stream)) {
+        if (isatty(std::cout)) {
             stream << color;
         }
     }
diff --git a/src/sink/console.cpp b/src/sink/console.cpp
index 65eeb47..f350dd0 100644
--- a/src/sink/console.cpp
+++ b/src/sink/console.cpp
@@ -88,9 +88,11 @@ auto console_t::emit(const record_t& record, const string_view& formatted) -> vo
     }
 
     if (isatty(stream())) {
+        // User-defined mapping is allowed to write logs, so it must be called with no lock held.
+        auto color = mapping(record);
+
         std::lock_guard<std::mutex> lock(util::console_mutex());
-        mapping(record)
-            .write(stream(), formatted.data(), formatted.size());
+        color.write(stream(), formatted.data(), formatted.size());
         stream() << std::endl;
     } else {
         std::lock_guard<std::mutex> lock(util::console_mutex());
-- 
2.43.0


From 3d5b4024095ee0391dd506d09618f944c95a4267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:29 +0000
Subject: [PATCH 31/39] fix: do not terminate when a colored write throws

---
 src/termcolor.cpp | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/termcolor.cpp b/src/termcolor.cpp
index 0ccb0e3..993e9b9 100644
--- a/src/termcolor.cpp
+++ b/src/termcolor.cpp
@@ -4,24 +4,6 @@
 
 namespace blackhole {
 inline namespace v1 {
-namespace {
-
-class scope_t {
-    std::ostream& stream;
-
-public:
-    scope_t(std::ostream& stream, const termcolor_t& color) :
-        stream(stream)
-    {
-        stream << color;
-    }
-
-    ~scope_t() noexcept(false) {
-        stream << termcolor_t::reset();
-    }
-};
-
-}  // namespace
 
 termcolor_t::termcolor_t() noexcept :
     attr(0),
@@ -67,8 +49,9 @@ auto termcolor_t::operator!=(const termcolor_t& other) const noexcept -> bool {
 
 auto termcolor_t::write(std::ostream& stream, const char* data, std::size_t size) -> void {
     if (colored()) {
-        scope_t scope(stream, *this);
+        stream << *this;
         stream.write(data, static_cast<std::streamsize>(size));
+        stream << termcolor_t::reset();
     } else {
         stream.write(data, static_cast<std::streamsize>(size));
     }
-- 
2.43.0


From f9a67d04182d74ce263f0e3cec37c4635e3c4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:09 +0000
Subject: [PATCH 32/39] fix: initialize the time zone of the broken-down UTC
 time

---
 src/util/time.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/time.hpp b/src/util/time.hpp
index a41f6d9..3756160 100644
--- a/src/util/time.hpp
+++ b/src/util/time.hpp
@@ -66,6 +66,8 @@ static auto gmtime(const time_t* t, struct tm* tp) noexcept -> struct tm* {
     tp->tm_yday = yday;
     tp->tm_wday = static_cast<int>(wday);
     tp->tm_isdst = 0;
+    tp->tm_gmtoff = 0;
+    tp->tm_zone = "GMT";
 
     return tp;
 }
-- 
2.43.0


From c6cbc793a694a6bb28cf8f5835221e90297da829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 33/39] fix: respect daylight saving time and the sign of UTC
 offset in local timestamps

---
 src/util/time.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/util/time.hpp b/src/util/time.hpp
index 3756160..c4a4575 100644
--- a/src/util/time.hpp
+++ b/src/util/time.hpp
@@ -85,12 +85,7 @@ static const tzinit_t tz;
 #pragma clang diagnostic pop
 
 static auto localtime(const time_t* t, struct tm* tp) noexcept -> struct tm* {
-    time_t time = *t - timezone;
-    gmtime_r(&time, tp);
-    tp->tm_gmtoff = timezone;
-    tp->tm_zone = *tzname;
-
-    return tp;
+    return ::localtime_r(t, tp);
 }
 
 } // namespace v1
-- 
2.43.0


From 322e7a3db844e11bedc948f72bbf3d99872cf73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:21 +0000
Subject: [PATCH 34/39] fix: do not treat an escaped percent sign as a part of
 datetime placeholder

---
 src/datetime/generator.linux.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index 4186ac1..5cd69af 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -46,7 +46,11 @@ generator_t::generator_t(std::string pattern) {
 
     auto pos = std::begin(pattern);
     while (pos != std::end(pattern)) {
-        if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%f")) {
+        if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%%")) {
+            literal.append("%%");
+            ++pos;
+            ++pos;
+        } else if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%f")) {
             tokens.emplace_back(literal_t{std::move(literal)});
             tokens.emplace_back(usecond_t{});
             literal.clear();
-- 
2.43.0


From d795799f9a814b170254295c4f0cb2097cf30cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:50 +0000
Subject: [PATCH 35/39] fix: format seconds since the epoch regardless of the
 current time zone

---
 src/datetime/generator.linux.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index 5cd69af..3becbfa 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -31,7 +31,9 @@ struct visitor_t : public boost::static_visitor<> {
     }
 
     auto operator()(epoch_t) -> void {
-        stream.write("{}", std::mktime(&tm));
+        // The time given can be either local or not, what is determined by its UTC offset.
+        std::tm copy = tm;
+        stream.write("{}", ::timegm(&copy) - tm.tm_gmtoff);
     }
 
     auto operator()(usecond_t) -> void {
-- 
2.43.0


From 104939c3a27396a4be41a83776ae8eda7f939e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:02 +0000
Subject: [PATCH 36/39] fix: rebuild the attributes view when a wrapper is
 moved

---
 include/blackhole/wrapper.hpp | 5 +++--
 src/wrapper.cpp               | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/blackhole/wrapper.hpp b/include/blackhole/wrapper.hpp
index 5a4de7b..b626d62 100644
--- a/include/blackhole/wrapper.hpp
+++ b/include/blackhole/wrapper.hpp
@@ -15,9 +15,10 @@ class wrapper_t : public logger_t {
 public:
     wrapper_t(logger_t& log, attributes_t attributes);
 
-    /// Copies the attributes with the view rebuilt to refer to the copy instead of the source.
+    /// Both copy and move constructors rebuild the attributes view to refer to the attributes
+    /// stored in the new wrapper instead of the source.
     wrapper_t(const wrapper_t& other);
-    wrapper_t(wrapper_t&& other) = default;
+    wrapper_t(wrapper_t&& other);
 
     auto attributes() const noexcept -> const view_of<attributes_t>::type& {
         return attributes_view;
diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 1ab6644..7f47aae 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -19,6 +19,10 @@ wrapper_t::wrapper_t(const wrapper_t& other):
     wrapper_t(other.inner, other.storage)
 {}
 
+wrapper_t::wrapper_t(wrapper_t&& other):
+    wrapper_t(other.inner, std::move(other.storage))
+{}
+
 auto wrapper_t::log(severity_t severity, const message_t& message) -> void {
     attribute_pack pack{attributes()};
     inner.log(severity, message, pack);
-- 
2.43.0


From bf2c3795b3e40b40471ce7aaf52eda91b7ee41f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:25 +0000
Subject: [PATCH 37/39] fix: moved-from root logger must not keep the scopes it
 handed over

Scoped attributes are rebound to the new logger on move, so the moved-from one never
learns about their destruction: using it again (after std::swap for example) followed
a dangling pointer.
---
 src/root.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/root.cpp b/src/root.cpp
index 8f5be5c..d232b73 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -114,6 +114,7 @@ root_logger_t::root_logger_t(root_logger_t&& other) noexcept :
 
     if (sync->manager.get()) {
         sync->manager.get()->rebind(sync->manager);
+        other.sync->manager.reset(nullptr);
     }
 }
 
@@ -133,6 +134,7 @@ root_logger_t::operator=(root_logger_t&& other) noexcept -> root_logger_t& {
     if (other.sync->manager.get()) {
         sync->manager.reset(other.sync->manager.get());
         sync->manager.get()->rebind(sync->manager);
+        other.sync->manager.reset(nullptr);
     }
 
     return *this;
-- 
2.43.0


From 236fd2f9069cd24e02c04bf8ca09c647efef7a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 38/39] fix: look configuration keys up by their whole text

A key with an embedded NUL was cut at it, so that a lookup found a member with
another name, and members with such names could not be found at all.
---
 src/config/json.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/config/json.hpp b/src/config/json.hpp
index 391d4d6..bd056d7 100644
--- a/src/config/json.hpp
+++ b/src/config/json.hpp
@@ -170,8 +170,14 @@ public:
     }
 
     auto operator[](const std::string& key) const -> option_t {
-        if (value.IsObject() && value.HasMember(key.c_str())) {
-            return make_option<json_t>(value[key.c_str()], advance(key));
+        if (value.IsObject()) {
+            // Compare the whole key, it may contain NUL characters.
+            const rapidjson::Value name(rapidjson::StringRef(key.data(), key.size()));
+            const auto it = value.FindMember(name);
+
+            if (it != value.MemberEnd()) {
+                return make_option<json_t>(it->value, advance(key));
+            }
         }
 
         return {};
-- 
2.43.0


From 703fd8302e1b9dbd8a68574eb025b04e29d1474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:31 +0000
Subject: [PATCH 39/39] fix: text of a time pattern was lost when it did not
 fit into a fixed buffer or followed a NUL

---
 src/datetime/generator.linux.cpp | 45 +++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index 3becbfa..5dc00e1 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -2,6 +2,12 @@
 
 #include "generator.linux.hpp"
 
+#include <algorithm>
+#include <ctime>
+#include <iterator>
+#include <string>
+#include <vector>
+
 #include <boost/algorithm/string.hpp>
 #include <boost/variant/apply_visitor.hpp>
 #include <boost/variant/variant.hpp>
@@ -17,17 +23,31 @@ struct visitor_t : public boost::static_visitor<> {
     fmt::MemoryWriter& stream;
     std::tm tm;
     std::uint64_t usec;
-    char buffer[1024];
+    std::vector<char> buffer;
 
     visitor_t(fmt::MemoryWriter& stream, const std::tm& tm, std::uint64_t usec) :
         stream(stream),
         tm(tm),
-        usec(usec)
+        usec(usec),
+        buffer(1024)
     {}
 
     auto operator()(const literal_t& value) -> void {
-        std::size_t ret = std::strftime(buffer, sizeof(buffer), value.value.c_str(), &tm);
-        stream << fmt::StringRef(buffer, ret);
+        // The format ends at the first null character, so the pieces between them are formatted.
+        const auto end = std::end(value.value);
+        auto pos = std::begin(value.value);
+
+        while (true) {
+            const auto next = std::find(pos, end, '\0');
+            format(std::string(pos, next));
+
+            if (next == end) {
+                return;
+            }
+
+            stream << '\0';
+            pos = std::next(next);
+        }
     }
 
     auto operator()(epoch_t) -> void {
@@ -39,6 +59,23 @@ struct visitor_t : public boost::static_visitor<> {
     auto operator()(usecond_t) -> void {
         stream.write("{:06d}", usec);
     }
+
+private:
+    auto format(std::string pattern) -> void {
+        // Zero is returned both when nothing is printed and when the buffer is too small, hence at
+        // least a space is printed.
+        pattern.push_back(' ');
+
+        while (true) {
+            const auto ret = std::strftime(buffer.data(), buffer.size(), pattern.c_str(), &tm);
+            if (ret > 0) {
+                stream << fmt::StringRef(buffer.data(), ret - 1);
+                return;
+            }
+
+            buffer.resize(2 * buffer.size());
+        }
+    }
 };
 
 }  // namespace
-- 
2.43.0


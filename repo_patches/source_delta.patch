From bf1fdddbbdf24c5a901b0e9576c817ade6be821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 01/52] fix: sbo_resource must not serve over-aligned requests
 from its buffer

---
 include/boost/cobalt/detail/sbo_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/sbo_resource.hpp b/include/boost/cobalt/detail/sbo_resource.hpp
index ae37315..1e5baf0 100644
--- a/include/boost/cobalt/detail/sbo_resource.hpp
+++ b/include/boost/cobalt/detail/sbo_resource.hpp
@@ -90,7 +90,7 @@ struct sbo_resource
 #endif
   {
     const auto sz = align_as_max_(size);
-    if (sz <= buffer_.avail && !buffer_.fragmented) [[likely]]
+    if (sz <= buffer_.avail && !buffer_.fragmented && align <= alignof(std::max_align_t)) [[likely]]
     {
       auto p = static_cast<char*>(buffer_.p) + buffer_.size - buffer_.avail;
       buffer_.avail -= sz;
-- 
2.43.0


From b05a45d329042e671fe18bc7f7981e6b2bac3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 02/52] fix: sbo_resource returns a zero sized block of a full
 buffer to the upstream resource

---
 include/boost/cobalt/detail/sbo_resource.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/cobalt/detail/sbo_resource.hpp b/include/boost/cobalt/detail/sbo_resource.hpp
index 1e5baf0..5b97f21 100644
--- a/include/boost/cobalt/detail/sbo_resource.hpp
+++ b/include/boost/cobalt/detail/sbo_resource.hpp
@@ -33,6 +33,8 @@ struct sbo_resource
 #endif
   constexpr std::size_t align_as_max_(std::size_t size)
   {
+    if (size == 0u) // a block must occupy memory, otherwise do_deallocate can't recognize it
+      return alignof(std::max_align_t);
     auto diff = size % alignof(std::max_align_t );
     if (diff > 0)
       return size + alignof(std::max_align_t) - diff;
-- 
2.43.0


From eca9bd2f3f78793369e9ef796eac7d6df80dc596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 03/52] fix: sbo_resource hands out buffer memory for sizes
 that overflow when rounded up

---
 include/boost/cobalt/detail/sbo_resource.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/sbo_resource.hpp b/include/boost/cobalt/detail/sbo_resource.hpp
index 5b97f21..ed6246b 100644
--- a/include/boost/cobalt/detail/sbo_resource.hpp
+++ b/include/boost/cobalt/detail/sbo_resource.hpp
@@ -92,7 +92,8 @@ struct sbo_resource
 #endif
   {
     const auto sz = align_as_max_(size);
-    if (sz <= buffer_.avail && !buffer_.fragmented && align <= alignof(std::max_align_t)) [[likely]]
+    if (size <= buffer_.avail && sz <= buffer_.avail && !buffer_.fragmented
+        && align <= alignof(std::max_align_t)) [[likely]]
     {
       auto p = static_cast<char*>(buffer_.p) + buffer_.size - buffer_.avail;
       buffer_.avail -= sz;
-- 
2.43.0


From faf295b5211210f87d00e8b8df2002942e1ffdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 04/52] fix: monotonic_resource places the block header inside
 the allocated memory

---
 include/boost/cobalt/detail/monotonic_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/monotonic_resource.hpp b/include/boost/cobalt/detail/monotonic_resource.hpp
index 8793b2a..bc976f9 100644
--- a/include/boost/cobalt/detail/monotonic_resource.hpp
+++ b/include/boost/cobalt/detail/monotonic_resource.hpp
@@ -96,7 +96,7 @@ struct monotonic_resource
 
     const auto aligned = std::align_val_t(align);
     const auto mem = ::operator new(alloc_size, aligned);
-    const auto block_location = static_cast<char*>(mem) +  mem_size + offset;
+    const auto block_location = static_cast<char*>(mem) + raw_size;
     head_ = head_->next = new (block_location) block_{mem, raw_size - size, raw_size, aligned, nullptr};
 
     return mem;
-- 
2.43.0


From 7ca635a73fc85b5d08edc24a37de69df141ffb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 05/52] fix: monotonic_resource aligns the memory it hands out

---
 .../cobalt/detail/monotonic_resource.hpp      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/boost/cobalt/detail/monotonic_resource.hpp b/include/boost/cobalt/detail/monotonic_resource.hpp
index bc976f9..26c0433 100644
--- a/include/boost/cobalt/detail/monotonic_resource.hpp
+++ b/include/boost/cobalt/detail/monotonic_resource.hpp
@@ -13,6 +13,7 @@
 #define BOOST_COBALT_DETAIL_MONOTONIC_BUFFER_RESOURCE_HPP
 
 #include <boost/cobalt/config.hpp>
+#include <cstdint>
 #include <new>
 
 namespace boost::cobalt::detail
@@ -70,18 +71,17 @@ struct monotonic_resource
   constexpr void * allocate(std::size_t size, std::align_val_t align_ = std::align_val_t(alignof(std::max_align_t)))
   {
     const auto align = (std::max)(static_cast<std::size_t>(align_), alignof(block_));
-    // let's say size = 11, and align is 8, that leaves us with 3
+    if (head_->p != nullptr)
     {
-      const auto align_offset = size % align ;
-      // padding is 5
-      const auto padding = align  - align_offset;
-      const auto needed_size = size + padding;
-      if (needed_size <= head_->avail) // fits, but we need to check alignment too
+      const auto offset = head_->size - head_->avail;
+      const auto pp = static_cast<char*>(head_->p) + offset;
+      // the buffer or the previous allocation might not be aligned, so align the actual address.
+      const auto align_offset = reinterpret_cast<std::uintptr_t>(pp) % align;
+      const auto padding = align_offset == 0u ? 0u : align - align_offset;
+      if (padding <= head_->avail && size <= head_->avail - padding)
       {
-        const auto offset = head_->size - head_->avail;
-        auto pp = static_cast<char*>(head_->p) + offset + padding;
-        head_->avail -= needed_size;
-        return pp; // done
+        head_->avail -= padding + size;
+        return pp + padding; // done
       }
     }
 
-- 
2.43.0


From 1723f6f61856e73e6918a0fc7146c33d3396b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 06/52] fix: race of void awaitables reports the error of a
 winner that began a transaction

---
 include/boost/cobalt/detail/race.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 006608f..a26fae1 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -217,11 +217,9 @@ struct race_variadic_impl
         {
           auto res = co_await aw;
           if (!this_.has_result())
-          {
             this_.index = Idx;
-            if (res.has_error())
-              this_.assign_error(res);
-          }
+          if (this_.index == Idx && res.has_error())
+            this_.assign_error(res);
           if constexpr(!all_void)
             if (this_.index == Idx && !res.has_error())
               this_.result.emplace(variant2::in_place_index<Idx>);
@@ -541,11 +539,9 @@ struct race_ranged_impl
         {
           auto res = co_await aw;
           if (!this_.has_result())
-          {
-            if (res.has_error())
-              this_.assign_error(res);
             this_.index = idx;
-          }
+          if (this_.index == idx && res.has_error())
+            this_.assign_error(res);
         }
         else
         {
-- 
2.43.0


From c95fae2d7c607deb27bc4cc45e9ae91aad2ca341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 07/52] fix: race starts nothing further once one awaitable
 completed

---
 include/boost/cobalt/detail/race.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index a26fae1..54a36c2 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -313,10 +313,8 @@ struct race_variadic_impl
       for (std::size_t idx = 1u;
            idx < tuple_size; idx++) // we'
       {
-        auto l = impls[idx](*this);
-        const auto d = l.done();
-        l.release();
-        if (d)
+        impls[idx](*this).release();
+        if (has_result())
           break;
       }
 
@@ -622,10 +620,8 @@ struct race_ranged_impl
       for (auto itr = std::next(reorder.begin());
            itr < reorder.end(); std::advance(itr, 1)) // we'
       {
-        auto l = await_impl(*this, *itr);
-        auto d = l.done();
-        l.release();
-        if (d)
+        await_impl(*this, *itr).release();
+        if (has_result())
           break;
       }
 
-- 
2.43.0


From 465550933d0a46e6a314b83f77ca706c84242cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 08/52] fix: race, join and gather clear the cancellation slot
 of their awaiter when they complete

---
 include/boost/cobalt/detail/fork.hpp    |  8 ++++++++
 include/boost/cobalt/detail/gather.hpp  |  6 ++++--
 include/boost/cobalt/detail/handler.hpp | 11 +++++++----
 include/boost/cobalt/detail/join.hpp    | 10 ++++++++--
 include/boost/cobalt/detail/race.hpp    | 10 ++++++++--
 5 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 58fef62..799596a 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -57,6 +57,14 @@ struct fork
 
     bool outstanding_work() {return use_count != 0u;}
 
+    // the slot of the awaiting coro, it must not be left pointing to this state
+    asio::cancellation_slot cl;
+    void clear_cancellation()
+    {
+      if (cl.is_connected())
+        cl.clear();
+    }
+
     std::optional<executor> exec{};
     bool wired_up() {return exec.has_value();}
 
diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 92f665f..39c951a 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -173,7 +173,7 @@ struct gather_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->cl = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -192,6 +192,7 @@ struct gather_variadic_impl
     BOOST_COBALT_MSVC_NOINLINE
     std::tuple<result_part<Args> ...> await_resume()
     {
+      this->clear_cancellation();
       return mp11::tuple_transform(
           []<typename T>(variant2::variant<variant2::monostate, T, std::exception_ptr> & var)
               -> system::result<monostate_as_void<T>, std::exception_ptr>
@@ -372,7 +373,7 @@ struct gather_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->cl = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -387,6 +388,7 @@ struct gather_ranged_impl
     BOOST_COBALT_MSVC_NOINLINE
     auto await_resume()
     {
+      this->clear_cancellation();
 #if !defined(BOOST_COBALT_NO_PMR)
       pmr::vector<result_type> res{result.size(), this_thread::get_allocator()};
 #else
diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 8376c6b..3481193 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -172,15 +172,18 @@ struct completion_handler_base
 };
 
 
+// returns the slot the handler got assigned to, which must be cleared before the handler's state goes away.
 template<typename Handler>
-void assign_cancellation(std::coroutine_handle<void>, Handler &&) {}
+asio::cancellation_slot assign_cancellation(std::coroutine_handle<void>, Handler &&) {return {};}
 
 template<typename Promise, typename Handler>
-void assign_cancellation(std::coroutine_handle<Promise> h, Handler && func)
+asio::cancellation_slot assign_cancellation(std::coroutine_handle<Promise> h, Handler && func)
 {
+  asio::cancellation_slot slot;
   if constexpr (requires {h.promise().get_cancellation_slot();})
-    if (h.promise().get_cancellation_slot().is_connected())
-      h.promise().get_cancellation_slot().assign(std::forward<Handler>(func));
+    if ((slot = h.promise().get_cancellation_slot()).is_connected())
+      slot.assign(std::forward<Handler>(func));
+  return slot;
 }
 
 }
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index f412551..906f233 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -205,7 +205,7 @@ struct join_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->cl = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -221,6 +221,7 @@ struct join_variadic_impl
     BOOST_COBALT_MSVC_NOINLINE
     auto await_resume()
     {
+      this->clear_cancellation();
       if (error)
         std::rethrow_exception(error);
       if constexpr(!all_void)
@@ -235,6 +236,7 @@ struct join_variadic_impl
 
     auto await_resume(const as_tuple_tag &)
     {
+      this->clear_cancellation();
       using t = decltype(await_resume());
       if constexpr(!all_void)
       {
@@ -256,6 +258,7 @@ struct join_variadic_impl
 
     auto await_resume(const as_result_tag &)
     {
+      this->clear_cancellation();
       using t = decltype(await_resume());
       using rt = system::result<t, std::exception_ptr>;
       if (error)
@@ -464,7 +467,7 @@ struct join_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->cl = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -480,6 +483,7 @@ struct join_ranged_impl
 
     auto await_resume(const as_tuple_tag & )
     {
+      this->clear_cancellation();
 #if defined(BOOST_COBALT_NO_PMR)
       std::vector<result_type> rr;
 #else
@@ -499,6 +503,7 @@ struct join_ranged_impl
 
     auto await_resume(const as_result_tag & )
     {
+      this->clear_cancellation();
 #if defined(BOOST_COBALT_NO_PMR)
       std::vector<result_type> rr;
 #else
@@ -519,6 +524,7 @@ struct join_ranged_impl
     BOOST_COBALT_MSVC_NOINLINE
     auto await_resume()
     {
+      this->clear_cancellation();
       if (error)
         std::rethrow_exception(error);
       if constexpr (!std::is_void_v<result_type>)
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 54a36c2..c8ec65a 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -322,7 +322,7 @@ struct race_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->cl = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -338,6 +338,7 @@ struct race_variadic_impl
     BOOST_COBALT_MSVC_NOINLINE
     auto await_resume()
     {
+      this->clear_cancellation();
       if (error)
         std::rethrow_exception(error);
       if constexpr (all_void)
@@ -348,6 +349,7 @@ struct race_variadic_impl
 
     auto await_resume(const as_tuple_tag &)
     {
+      this->clear_cancellation();
       if constexpr (all_void)
         return std::make_tuple(error, index);
       else
@@ -357,6 +359,7 @@ struct race_variadic_impl
     auto await_resume(const as_result_tag & )
         -> system::result<std::conditional_t<all_void, std::size_t, variant2::variant<void_as_monostate<co_await_result_t<Args>>...>>, std::exception_ptr>
     {
+      this->clear_cancellation();
       if (error)
         return {system::in_place_error, error};
       if constexpr (all_void)
@@ -629,7 +632,7 @@ struct race_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->cl = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -645,6 +648,7 @@ struct race_ranged_impl
     BOOST_COBALT_MSVC_NOINLINE
     auto await_resume()
     {
+      this->clear_cancellation();
       if (error)
         std::rethrow_exception(error);
       if constexpr (std::is_void_v<result_type>)
@@ -655,6 +659,7 @@ struct race_ranged_impl
 
     auto await_resume(const as_tuple_tag &)
     {
+      this->clear_cancellation();
       if constexpr (std::is_void_v<result_type>)
         return std::make_tuple(error, index);
       else
@@ -664,6 +669,7 @@ struct race_ranged_impl
     auto await_resume(const as_result_tag & )
     -> system::result<std::conditional_t<std::is_void_v<result_type>, std::size_t, std::pair<std::size_t, result_type>>, std::exception_ptr>
     {
+      this->clear_cancellation();
       if (error)
         return {system::in_place_error, error};
       if constexpr (std::is_void_v<result_type>)
-- 
2.43.0


From 2bf97c25ffb899b7c8205adff432bb66d5bb230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 09/52] fix: interrupting a join of a range interrupts every
 pending awaitable

---
 include/boost/cobalt/detail/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 906f233..44843a6 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -390,7 +390,7 @@ struct join_ranged_impl
       {
         std::size_t idx = 0u;
         for (auto & aw : aws)
-          if (cancel[idx])
+          if (cancel[idx++])
             static_cast<t>(aw).interrupt_await();
       }
     }
-- 
2.43.0


From f9e2f25c1ae6f41110f898d0bc81e1379c996069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 10/52] fix: join and gather of a range ask each awaitable for
 readiness only once

---
 include/boost/cobalt/detail/gather.hpp | 9 ---------
 include/boost/cobalt/detail/join.hpp   | 9 ---------
 2 files changed, 18 deletions(-)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 39c951a..ad2a919 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -242,7 +242,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     pmr::vector<result_storage_type> result{cancel.size(), alloc};
 
@@ -251,7 +250,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
         std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     std::vector<result_storage_type> result{cancel.size(), alloc};
 #endif
@@ -261,7 +259,6 @@ struct gather_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs operator co_await */)
       : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
       aws.reserve(std::size(aws_));
@@ -273,17 +270,11 @@ struct gather_ranged_impl
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
 
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 44843a6..e3646bb 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -307,7 +307,6 @@ struct join_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -324,7 +323,6 @@ struct join_ranged_impl
     std::allocator<void> alloc;
     std::conditional_t<awaitable_type<type>, Range &,  std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     std::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -341,7 +339,6 @@ struct join_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs  operator co_await */)
       :  fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel_{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
@@ -353,17 +350,11 @@ struct join_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
-- 
2.43.0


From af648fe97fe7861352b0cd1ebb1c19865d952252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 11/52] fix: as_result and as_tuple of race and join report an
 error without reading a missing result

---
 include/boost/cobalt/detail/join.hpp | 39 ++++++++++++++++------------
 include/boost/cobalt/detail/race.hpp |  4 +--
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index e3646bb..168c9b9 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -243,7 +243,7 @@ struct join_variadic_impl
         if (error)
           return std::make_tuple(error, t{});
         else
-          return std::make_tuple(std::current_exception(),
+          return std::make_tuple(std::exception_ptr(),
                                  mp11::tuple_transform(
               []<typename T>(std::optional<T> & var)
                   -> T
@@ -265,13 +265,13 @@ struct join_variadic_impl
         return rt(system::in_place_error, error);
 
       if constexpr(!all_void)
-        return mp11::tuple_transform(
+        return rt(system::in_place_value, mp11::tuple_transform(
             []<typename T>(std::optional<T> & var)
-                -> rt
+                -> T
             {
               BOOST_ASSERT(var.has_value());
               return std::move(*var);
-            }, result);
+            }, result));
       else
         return rt{system::in_place_value};
     }
@@ -475,16 +475,18 @@ struct join_ranged_impl
     auto await_resume(const as_tuple_tag & )
     {
       this->clear_cancellation();
+      if constexpr (std::is_void_v<result_type>)
+        return std::make_tuple(error);
+      else
+      {
 #if defined(BOOST_COBALT_NO_PMR)
-      std::vector<result_type> rr;
+        std::vector<result_type> rr;
 #else
-      pmr::vector<result_type> rr{this_thread::get_allocator()};
+        pmr::vector<result_type> rr{this_thread::get_allocator()};
 #endif
 
-      if (error)
-        return std::make_tuple(error, rr);
-      if constexpr (!std::is_void_v<result_type>)
-      {
+        if (error)
+          return std::make_tuple(error, rr);
         rr.reserve(result.size());
         for (auto & t : result)
           rr.push_back(*std::move(t));
@@ -495,16 +497,21 @@ struct join_ranged_impl
     auto await_resume(const as_result_tag & )
     {
       this->clear_cancellation();
+      if constexpr (std::is_void_v<result_type>)
+      {
+        using rt = system::result<void, std::exception_ptr>;
+        return error ? rt(system::in_place_error, error) : rt(system::in_place_value);
+      }
+      else
+      {
 #if defined(BOOST_COBALT_NO_PMR)
-      std::vector<result_type> rr;
+        std::vector<result_type> rr;
 #else
-      pmr::vector<result_type> rr{this_thread::get_allocator()};
+        pmr::vector<result_type> rr{this_thread::get_allocator()};
 #endif
 
-      if (error)
-        return system::result<decltype(rr), std::exception_ptr>(error);
-      if constexpr (!std::is_void_v<result_type>)
-      {
+        if (error)
+          return system::result<decltype(rr), std::exception_ptr>(error);
         rr.reserve(result.size());
         for (auto & t : result)
           rr.push_back(*std::move(t));
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index c8ec65a..0b6c484 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -353,7 +353,7 @@ struct race_variadic_impl
       if constexpr (all_void)
         return std::make_tuple(error, index);
       else
-        return std::make_tuple(error, std::move(*result));
+        return std::make_tuple(error, result ? std::move(*result) : typename decltype(result)::value_type{});
     }
 
     auto await_resume(const as_result_tag & )
@@ -663,7 +663,7 @@ struct race_ranged_impl
       if constexpr (std::is_void_v<result_type>)
         return std::make_tuple(error, index);
       else
-        return std::make_tuple(error, std::make_pair(index, std::move(*result)));
+        return std::make_tuple(error, std::make_pair(index, result ? std::move(*result) : result_type{}));
     }
 
     auto await_resume(const as_result_tag & )
-- 
2.43.0


From 961dcdbdb4731f5db85a088b1f6c56c394a0711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 12/52] fix: race, join and gather survive being resumed while
 they interrupt their awaitables

---
 include/boost/cobalt/detail/fork.hpp   | 10 ++++++++++
 include/boost/cobalt/detail/gather.hpp | 22 +++++++++++++++-------
 include/boost/cobalt/detail/join.hpp   | 26 +++++++++++++++++---------
 include/boost/cobalt/detail/race.hpp   | 20 ++++++++++++++------
 4 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 799596a..ba2f9dc 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -65,6 +65,16 @@ struct fork
         cl.clear();
     }
 
+    // run func without the awaiting coro (which owns this) being resumed before func is done.
+    template<typename Func>
+    void hold(Func && func)
+    {
+      use_count++;
+      func();
+      if (--use_count == 0u && coro)
+        coro.release().resume();
+    }
+
     std::optional<executor> exec{};
     bool wired_up() {return exec.has_value();}
 
diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index ad2a919..4ea265b 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -84,11 +84,15 @@ struct gather_variadic_impl
     }
     void interrupt_await()
     {
-      mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
-          ([&](auto idx)
-           {
-             interrupt_await_step<idx>();
-           });
+      this->hold(
+          [&]
+          {
+            mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
+                ([&](auto idx)
+                 {
+                   interrupt_await_step<idx>();
+                 });
+          });
     }
 
     // GCC doesn't like member funs
@@ -289,8 +293,12 @@ struct gather_ranged_impl
                                    co_awaitable_type<type> &&>;
 
       if constexpr (interruptible<t>)
-        for (auto & aw : aws)
-          static_cast<t>(aw).interrupt_await();
+        this->hold(
+            [&]
+            {
+              for (auto & aw : aws)
+                static_cast<t>(aw).interrupt_await();
+            });
     }
 
     static detail::fork await_impl(awaitable & this_, std::size_t idx)
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 168c9b9..d03f630 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -107,11 +107,15 @@ struct join_variadic_impl
 
     void interrupt_await()
     {
-      mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
-          ([&](auto idx)
-           {
-             interrupt_await_step<idx>();
-           });
+      this->hold(
+          [&]
+          {
+            mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
+                ([&](auto idx)
+                 {
+                   interrupt_await_step<idx>();
+                 });
+          });
     }
 
     // GCC doesn't like member funs
@@ -379,10 +383,14 @@ struct join_ranged_impl
 
       if constexpr (interruptible<t>)
       {
-        std::size_t idx = 0u;
-        for (auto & aw : aws)
-          if (cancel[idx++])
-            static_cast<t>(aw).interrupt_await();
+        this->hold(
+            [&]
+            {
+              std::size_t idx = 0u;
+              for (auto & aw : aws)
+                if (cancel[idx++])
+                  static_cast<t>(aw).interrupt_await();
+            });
       }
     }
 
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 0b6c484..b6f4f8a 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -142,9 +142,13 @@ struct race_variadic_impl
 
     void interrupt_await()
     {
-      for (auto i : working)
-        if (i)
-          i->interrupt_await();
+      this->hold(
+          [&]
+          {
+            for (auto i : working)
+              if (i)
+                i->interrupt_await();
+          });
     }
 
     template<typename T, typename Error>
@@ -479,9 +483,13 @@ struct race_ranged_impl
     void interrupt_await()
     {
       if constexpr (traits::interruptible)
-        for (auto aw : working)
-          if (aw)
-            traits::do_interrupt(*aw);
+        this->hold(
+            [&]
+            {
+              for (auto aw : working)
+                if (aw)
+                  traits::do_interrupt(*aw);
+            });
     }
 
 
-- 
2.43.0


From 5169133815c790f15ad1f6352952e1f201ba99c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 13/52] fix: assigning to a finished promise or generator does
 not touch its freed frame

---
 include/boost/cobalt/detail/generator.hpp | 2 +-
 include/boost/cobalt/detail/promise.hpp   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 7f3368e..4f8dc99 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -129,7 +129,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
 
   generator_receiver& operator=(generator_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    if (!done && reference && *reference == this)
     {
       *reference = nullptr;
     }
diff --git a/include/boost/cobalt/detail/promise.hpp b/include/boost/cobalt/detail/promise.hpp
index b8655a8..b378f5f 100644
--- a/include/boost/cobalt/detail/promise.hpp
+++ b/include/boost/cobalt/detail/promise.hpp
@@ -133,7 +133,7 @@ struct promise_receiver : promise_value_holder<T>
 
   promise_receiver& operator=(promise_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    if (!done && reference && *reference == this)
     {
       *reference = nullptr;
     }
@@ -150,6 +150,7 @@ struct promise_receiver : promise_value_holder<T>
       *reference = this;
       lhs.exception = moved_from_exception();
     }
+    lhs.done = true;
 
     return *this;
   }
-- 
2.43.0


From cf1141f6c7125541c339f1dfb9b19dfe1f5b844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 14/52] fix: awaiting a task a second time fails instead of
 resuming it at the wrong point

---
 include/boost/cobalt/detail/task.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/task.hpp b/include/boost/cobalt/detail/task.hpp
index 8dedd0b..178fcf7 100644
--- a/include/boost/cobalt/detail/task.hpp
+++ b/include/boost/cobalt/detail/task.hpp
@@ -157,6 +157,7 @@ struct task_receiver : task_value_holder<T>
   struct awaitable
   {
     task_receiver * self;
+    std::exception_ptr ex;
     asio::cancellation_slot cl;
     awaitable(task_receiver * self) : self(self)
     {
@@ -179,6 +180,12 @@ struct task_receiver : task_value_holder<T>
       if (self->done) // ok, so we're actually done already, so noop
         return std::coroutine_handle<void>::from_address(h.address());
 
+      if (self->awaited_from != nullptr || self->promise->started) // a task can only be awaited once.
+      {
+        ex = already_awaited();
+        return std::coroutine_handle<void>::from_address(h.address());
+      }
+
       if constexpr (requires {h.promise().get_cancellation_slot();})
         if ((cl = h.promise().get_cancellation_slot()).is_connected())
           cl.emplace<forward_cancellation>(self->promise->signal);
@@ -198,7 +205,8 @@ struct task_receiver : task_value_holder<T>
     {
       if (cl.is_connected())
         cl.clear();
-
+      if (ex)
+        std::rethrow_exception(ex);
       return self->get_result().value(loc);
     }
 
@@ -206,6 +214,8 @@ struct task_receiver : task_value_holder<T>
     {
       if (cl.is_connected())
         cl.clear();
+      if (ex)
+        return {system::in_place_error, std::move(ex)};
       return self->get_result();
     }
 
@@ -213,7 +223,7 @@ struct task_receiver : task_value_holder<T>
     {
       if (cl.is_connected())
         cl.clear();
-      auto res = self->get_result();
+      auto res = ex ? system::result<T, std::exception_ptr>(system::in_place_error, std::move(ex)) : self->get_result();
       if constexpr (std::is_void_v<T>)
         return res.error();
       else
-- 
2.43.0


From 4c0d5f628af9317a411f62d5d18abd541b5be09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 15/52] fix: awaiting a generator after get() hands the pushed
 value to the yield that is resumed

---
 include/boost/cobalt/detail/generator.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 4f8dc99..eb9cbb8 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -223,10 +223,12 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       self->awaited_from.reset(h.address());
 
       std::coroutine_handle<void> res = std::noop_coroutine();
-      if (self->yield_from != nullptr)
+      const bool resume_yield = self->yield_from != nullptr;
+      if (resume_yield)
         res = self->yield_from.release();
 
-      if ((to_push.index() > 0) && !self->pushed_value && self->lazy)
+      // if the yield gets resumed directly (it's lazy or the value got taken by `get`), it needs the value now.
+      if ((to_push.index() > 0) && !self->pushed_value && (self->lazy || resume_yield))
       {
         if constexpr (std::is_void_v<Push>)
           self->pushed_value = true;
@@ -298,8 +300,8 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
         to_push = variant2::monostate{};
       }
 
-      // now we also want to resume the coroutine, so it starts work
-      if (self->yield_from != nullptr && !self->lazy)
+      // now we also want to resume the coroutine, so it starts work - unless the push value was already used.
+      if (self->yield_from != nullptr && !self->lazy && self->pushed_value)
       {
         auto exec = self->yield_from->get_executor();
         auto alloc = asio::get_associated_allocator(self->yield_from);
-- 
2.43.0


From f5ffdf5acf3eed70888fe8168de0d2363856289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:09 +0000
Subject: [PATCH 16/52] fix: writing to a closed channel fails and units stored
 in a closed channel<void> can be read

---
 include/boost/cobalt/impl/channel.hpp | 2 +-
 src/channel.cpp                       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index dead930..eff6e6d 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -281,7 +281,7 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (closed)
+  if (closed || (chn->is_closed_ && !direct))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
diff --git a/src/channel.cpp b/src/channel.cpp
index eb7333d..8f6c846 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -50,7 +50,7 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (chn->is_closed_)
+  if (chn->is_closed_ && chn->n_ == 0u && !direct)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -94,7 +94,7 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (closed)
+  if (closed || (chn->is_closed_ && !direct))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
-- 
2.43.0


From 68de288af09ee4b5739d87b39b49ef28d03729d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 17/52] fix: a channel operation that was woken up cannot be
 overtaken, and passes its turn on when it is cancelled

---
 include/boost/cobalt/channel.hpp      | 22 ++++++--
 include/boost/cobalt/impl/channel.hpp | 80 +++++++++++++++++----------
 src/channel.cpp                       | 67 ++++++++++++++--------
 3 files changed, 113 insertions(+), 56 deletions(-)

diff --git a/include/boost/cobalt/channel.hpp b/include/boost/cobalt/channel.hpp
index 26c7f2c..e34fd88 100644
--- a/include/boost/cobalt/channel.hpp
+++ b/include/boost/cobalt/channel.hpp
@@ -68,6 +68,11 @@ struct channel
   executor_type executor_;
   bool is_closed_{false};
 
+  // ops that got woken up, but have not been resumed yet. The values & the space in the buffer are reserved for them.
+  std::size_t waking_readers_{0u}, waking_writers_{0u};
+  void wake_reader_();
+  void wake_writer_();
+
   struct read_op : intrusive::list_base_hook<intrusive::link_mode<intrusive::auto_unlink> >
   {
     channel * chn;
@@ -77,6 +82,7 @@ struct channel
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
+    bool woken = false;
 
     void transactional_unlink()
     {
@@ -96,7 +102,7 @@ struct channel
     }
 
     struct cancel_impl;
-    bool await_ready() { return !chn->buffer_.empty() || chn->is_closed_; }
+    bool await_ready() { return chn->buffer_.size() > chn->waking_readers_ || chn->is_closed_; }
     template<typename Promise>
     BOOST_COBALT_MSVC_NOINLINE
     std::coroutine_handle<void> await_suspend(std::coroutine_handle<Promise> h);
@@ -120,6 +126,7 @@ struct channel
 
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
+    bool woken = false;
 
     void transactional_unlink()
     {
@@ -140,7 +147,7 @@ struct channel
 
     struct cancel_impl;
 
-    bool await_ready() { return !chn->buffer_.full() || chn->is_closed_; }
+    bool await_ready() { return chn->buffer_.size() + chn->waking_writers_ < chn->buffer_.capacity() || chn->is_closed_; }
     template<typename Promise>
     BOOST_COBALT_MSVC_NOINLINE
     std::coroutine_handle<void> await_suspend(std::coroutine_handle<Promise> h);
@@ -230,6 +237,11 @@ struct channel<void>
   executor_type executor_;
   bool is_closed_{false};
 
+  // ops that got woken up, but have not been resumed yet. The units & the space are reserved for them.
+  std::size_t waking_readers_{0u}, waking_writers_{0u};
+  BOOST_COBALT_DECL void wake_reader_();
+  BOOST_COBALT_DECL void wake_writer_();
+
   struct read_op : intrusive::list_base_hook<intrusive::link_mode<intrusive::auto_unlink> >
   {
     channel * chn;
@@ -238,6 +250,7 @@ struct channel<void>
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
+    bool woken = false;
 
     void transactional_unlink()
     {
@@ -259,7 +272,7 @@ struct channel<void>
     struct cancel_impl;
     bool await_ready()
     {
-      return (chn->n_ > 0) || chn->is_closed_;
+      return (chn->n_ > chn->waking_readers_) || chn->is_closed_;
     }
 
     template<typename Promise>
@@ -279,6 +292,7 @@ struct channel<void>
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
+    bool woken = false;
 
     void transactional_unlink()
     {
@@ -300,7 +314,7 @@ struct channel<void>
     struct cancel_impl;
     bool await_ready()
     {
-      return chn->n_ < chn->limit_ || chn->is_closed_;
+      return chn->n_ + chn->waking_writers_ < chn->limit_ || chn->is_closed_;
     }
 
     template<typename Promise>
diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index eff6e6d..dc84216 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -57,7 +57,6 @@ void channel<T>::close()
   {
     auto & op = read_queue_.front();
     op.unlink();
-    op.cancelled = true;
     op.cancel_slot.clear();
 
     if (op.awaited_from)
@@ -76,6 +75,40 @@ void channel<T>::close()
 }
 
 
+template<typename T>
+void channel<T>::wake_reader_()
+{
+  if (!read_queue_.empty())
+  {
+    auto & op = read_queue_.front();
+    if (op.await_ready())
+    {
+      op.unlink();
+      op.woken = true;
+      waking_readers_++;
+      BOOST_ASSERT(op.awaited_from);
+      asio::post(executor_, std::move(op.awaited_from));
+    }
+  }
+}
+
+template<typename T>
+void channel<T>::wake_writer_()
+{
+  if (!write_queue_.empty())
+  {
+    auto & op = write_queue_.front();
+    if (op.await_ready())
+    {
+      op.unlink();
+      op.woken = true;
+      waking_writers_++;
+      BOOST_ASSERT(op.awaited_from);
+      asio::post(executor_, std::move(op.awaited_from));
+    }
+  }
+}
+
 template<typename T>
 struct channel<T>::read_op::cancel_impl
 {
@@ -111,7 +144,8 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  if (chn->write_queue_.empty())
+  // with a buffer values only go through it, so that nothing overtakes an op that's waking up.
+  if (chn->write_queue_.empty() || chn->buffer_.capacity() > 0u)
   {
     chn->read_queue_.push_back(*this);
     return std::noop_coroutine();
@@ -166,6 +200,9 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
+  if (woken)
+    chn->waking_readers_--;
+
   if (chn->is_closed_ && chn->buffer_.empty() && !direct)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
@@ -174,6 +211,8 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
 
   if (cancelled)
   {
+    if (woken) // someone else can have it
+      chn->wake_reader_();
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
@@ -186,17 +225,7 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
       chn->buffer_.push_back(std::move(*direct));
   }
 
-  if (!chn->write_queue_.empty())
-  {
-    auto &op = chn->write_queue_.front();
-    BOOST_ASSERT(chn->read_queue_.empty());
-    if (op.await_ready())
-    {
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
-  }
+  chn->wake_writer_();
   return {system::in_place_value, std::move(value)};
 }
 
@@ -232,8 +261,7 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  BOOST_ASSERT(this->chn->buffer_.full());
-  if (chn->read_queue_.empty())
+  if (chn->read_queue_.empty() || chn->buffer_.capacity() > 0u)
   {
     chn->write_queue_.push_back(*this);
     return std::noop_coroutine();
@@ -281,6 +309,9 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
+  if (woken)
+    chn->waking_writers_--;
+
   if (closed || (chn->is_closed_ && !direct))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
@@ -289,6 +320,8 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
 
   if (cancelled)
   {
+    if (woken) // someone else can have it
+      chn->wake_writer_();
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
@@ -307,18 +340,7 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
       chn->buffer_.push_back(std::move(*ref));
   }
 
-  if (!chn->read_queue_.empty())
-  {
-    auto & op = chn->read_queue_.front();
-    BOOST_ASSERT(chn->write_queue_.empty());
-    if (op.await_ready())
-    {
-      // unlink?
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
-  }
+  chn->wake_reader_();
   return system::in_place_value;
 }
 
@@ -368,7 +390,7 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
   // nothing to read currently, enqueue
-  if (chn->write_queue_.empty())
+  if (chn->write_queue_.empty() || chn->limit_ > 0u)
   {
     chn->read_queue_.push_back(*this);
     return std::noop_coroutine();
@@ -404,7 +426,7 @@ std::coroutine_handle<void> channel<void>::write_op::await_suspend(std::coroutin
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  if (chn->read_queue_.empty())
+  if (chn->read_queue_.empty() || chn->limit_ > 0u)
   {
     chn->write_queue_.push_back(*this);
     return std::noop_coroutine();
diff --git a/src/channel.cpp b/src/channel.cpp
index 8f6c846..dc9552a 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -28,7 +28,6 @@ void channel<void>::close()
   {
     auto & op = read_queue_.front();
     op.unlink();
-    op.cancelled = true;
     op.cancel_slot.clear();
     if (op.awaited_from)
       asio::defer(executor_, std::move(op.awaited_from));
@@ -45,11 +44,46 @@ void channel<void>::close()
   }
 }
 
+void channel<void>::wake_reader_()
+{
+  if (!read_queue_.empty())
+  {
+    auto & op = read_queue_.front();
+    if (op.await_ready())
+    {
+      op.unlink();
+      op.woken = true;
+      waking_readers_++;
+      BOOST_ASSERT(op.awaited_from);
+      asio::post(executor_, std::move(op.awaited_from));
+    }
+  }
+}
+
+void channel<void>::wake_writer_()
+{
+  if (!write_queue_.empty())
+  {
+    auto & op = write_queue_.front();
+    if (op.await_ready())
+    {
+      op.unlink();
+      op.woken = true;
+      waking_writers_++;
+      BOOST_ASSERT(op.awaited_from);
+      asio::post(executor_, std::move(op.awaited_from));
+    }
+  }
+}
+
 system::result<void>  channel<void>::read_op::await_resume(const struct as_result_tag &)
 {
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
+  if (woken)
+    chn->waking_readers_--;
+
   if (chn->is_closed_ && chn->n_ == 0u && !direct)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
@@ -58,23 +92,15 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
 
   if (cancelled)
   {
+    if (woken) // someone else can have it
+      chn->wake_reader_();
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
   if (!direct)
     chn->n_--;
-  if (!chn->write_queue_.empty())
-  {
-    auto &op = chn->write_queue_.front();
-    BOOST_ASSERT(chn->read_queue_.empty());
-    if (op.await_ready())
-    {
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
-  }
+  chn->wake_writer_();
   return {system::in_place_value};
 }
 
@@ -94,6 +120,9 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
+  if (woken)
+    chn->waking_writers_--;
+
   if (closed || (chn->is_closed_ && !direct))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
@@ -102,23 +131,15 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
 
   if (cancelled)
   {
+    if (woken) // someone else can have it
+      chn->wake_writer_();
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
   if (!direct)
     chn->n_++;
 
-  if (!chn->read_queue_.empty())
-  {
-    auto & op = chn->read_queue_.front();
-    BOOST_ASSERT(chn->write_queue_.empty());
-    if (op.await_ready())
-    {
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
-  }
+  chn->wake_reader_();
   return {system::in_place_value};
 }
 
-- 
2.43.0


From e7e2f8e276db8281c0051024c2e4ca541bbc164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 18/52] fix: destroying a channel does not loop forever when a
 race waits on it

---
 include/boost/cobalt/impl/channel.hpp | 12 ++++++++++--
 src/channel.cpp                       | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index dc84216..1d1f9c9 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -42,10 +42,18 @@ template<typename T>
 channel<T>::~channel()
 {
   while (!read_queue_.empty())
-    read_queue_.front().awaited_from.reset();
+  {
+    auto & op = read_queue_.front();
+    op.unlink();
+    op.awaited_from.reset();
+  }
 
   while (!write_queue_.empty())
-    write_queue_.front().awaited_from.reset();
+  {
+    auto & op = write_queue_.front();
+    op.unlink();
+    op.awaited_from.reset();
+  }
 
 }
 
diff --git a/src/channel.cpp b/src/channel.cpp
index dc9552a..ed0c573 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -14,10 +14,18 @@ namespace boost::cobalt
 channel<void>::~channel()
 {
   while (!read_queue_.empty())
-    read_queue_.front().awaited_from.reset();
+  {
+    auto & op = read_queue_.front();
+    op.unlink();
+    op.awaited_from.reset();
+  }
 
   while (!write_queue_.empty())
-    write_queue_.front().awaited_from.reset();
+  {
+    auto & op = write_queue_.front();
+    op.unlink();
+    op.awaited_from.reset();
+  }
 
 }
 
-- 
2.43.0


From bdf217e757694264c0f6df63ee4aad236a33e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 19/52] fix: a race is decided by a channel operation once it
 took or handed over a value, so that it cannot lose it

---
 include/boost/cobalt/channel.hpp      | 36 +++++++++------------------
 include/boost/cobalt/impl/channel.hpp | 20 +++++++++++++--
 src/channel.cpp                       |  4 +--
 3 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/include/boost/cobalt/channel.hpp b/include/boost/cobalt/channel.hpp
index e34fd88..067e116 100644
--- a/include/boost/cobalt/channel.hpp
+++ b/include/boost/cobalt/channel.hpp
@@ -93,12 +93,9 @@ struct channel
 
     void interrupt_await()
     {
-      if (!direct)
-      {
-        this->cancelled = true;
-        if (this->awaited_from)
-          this->awaited_from.release().resume();
-      }
+      this->cancelled = true;
+      if (!direct && this->awaited_from)
+        this->awaited_from.release().resume();
     }
 
     struct cancel_impl;
@@ -137,12 +134,9 @@ struct channel
 
     void interrupt_await()
     {
-      if (!direct)
-      {
-        this->cancelled = true;
-        if (this->awaited_from)
-          this->awaited_from.release().resume();
-      }
+      this->cancelled = true;
+      if (!direct && this->awaited_from)
+        this->awaited_from.release().resume();
     }
 
     struct cancel_impl;
@@ -261,12 +255,9 @@ struct channel<void>
 
     void interrupt_await()
     {
-      if (!direct)
-      {
-        this->cancelled = true;
-        if (this->awaited_from)
-          this->awaited_from.release().resume();
-      }
+      this->cancelled = true;
+      if (!direct && this->awaited_from)
+        this->awaited_from.release().resume();
     }
 
     struct cancel_impl;
@@ -303,12 +294,9 @@ struct channel<void>
 
     void interrupt_await()
     {
-      if (!direct)
-      {
-        cancelled = true;
-        if (this->awaited_from)
-          this->awaited_from.release().resume();
-      }
+      this->cancelled = true;
+      if (!direct && this->awaited_from)
+        this->awaited_from.release().resume();
     }
 
     struct cancel_impl;
diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index 1d1f9c9..1966cff 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -175,6 +175,10 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
       direct = std::move(*op.ref);
 
     op.transactional_unlink();
+    op.cancel_slot.clear();
+    // this one is decided, too - unless the transaction of `op` just interrupted it, i.e. both are in the same race.
+    if (begin_transaction && !cancelled)
+      begin_transaction(awaited_from.get());
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
 
@@ -217,7 +221,7 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
     return {system::in_place_error, asio::error::broken_pipe, &loc};
   }
 
-  if (cancelled)
+  if (cancelled && !direct)
   {
     if (woken) // someone else can have it
       chn->wake_reader_();
@@ -290,6 +294,10 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
 
     direct = true;
     op.transactional_unlink();
+    op.cancel_slot.clear();
+    // this one is decided, too - unless the transaction of `op` just interrupted it, i.e. both are in the same race.
+    if (begin_transaction && !cancelled)
+      begin_transaction(awaited_from.get());
 
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
@@ -326,7 +334,7 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
     return {system::in_place_error, asio::error::broken_pipe, &loc};
   }
 
-  if (cancelled)
+  if (cancelled && !direct)
   {
     if (woken) // someone else can have it
       chn->wake_writer_();
@@ -410,6 +418,10 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
     op.direct = true;
     direct = true;
     op.transactional_unlink();
+    op.cancel_slot.clear();
+    // this one is decided, too - unless the transaction of `op` just interrupted it, i.e. both are in the same race.
+    if (begin_transaction && !cancelled)
+      begin_transaction(awaited_from.get());
 
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
@@ -446,6 +458,10 @@ std::coroutine_handle<void> channel<void>::write_op::await_suspend(std::coroutin
     op.direct = true; // let interrupt_await know that we'll be resuming it!
     direct = true;
     op.transactional_unlink();
+    op.cancel_slot.clear();
+    // this one is decided, too - unless the transaction of `op` just interrupted it, i.e. both are in the same race.
+    if (begin_transaction && !cancelled)
+      begin_transaction(awaited_from.get());
 
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
diff --git a/src/channel.cpp b/src/channel.cpp
index ed0c573..69e3a94 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -98,7 +98,7 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
     return {system::in_place_error, asio::error::broken_pipe, &loc};
   }
 
-  if (cancelled)
+  if (cancelled && !direct)
   {
     if (woken) // someone else can have it
       chn->wake_reader_();
@@ -137,7 +137,7 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
     return {system::in_place_error, asio::error::broken_pipe, &loc};
   }
 
-  if (cancelled)
+  if (cancelled && !direct)
   {
     if (woken) // someone else can have it
       chn->wake_writer_();
-- 
2.43.0


From 52f27c8d7d3447f2123e0219960b74c69ac5d2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 20/52] fix: wait_one removes the completed promise from the
 group even if it threw

---
 include/boost/cobalt/detail/wait_group.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/wait_group.hpp b/include/boost/cobalt/detail/wait_group.hpp
index 56ca462..805af3e 100644
--- a/include/boost/cobalt/detail/wait_group.hpp
+++ b/include/boost/cobalt/detail/wait_group.hpp
@@ -48,9 +48,16 @@ struct race_wrapper
     {
       if (waitables_.empty())
         return;
-      auto idx = impl_->await_resume();
-      if (idx != std::numeric_limits<std::size_t>::max())
-        waitables_.erase(std::next(waitables_.begin(), idx));
+      // the promise is done with, even if it threw.
+      auto [ep, idx] = impl_->await_resume(as_tuple_tag{});
+      if (idx < waitables_.size())
+      {
+        auto itr = std::next(waitables_.begin(), idx);
+        if (!ep || itr->ready())
+          waitables_.erase(itr);
+      }
+      if (ep)
+        std::rethrow_exception(ep);
     }
 
     awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
-- 
2.43.0


From fd0e83b323a636c1414bc563aaf09c07f1ba86f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 21/52] fix: destroying a suspended with() destroys its
 awaiter, like every other coroutine

---
 include/boost/cobalt/detail/with.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/with.hpp b/include/boost/cobalt/detail/with.hpp
index 433f34f..9a4f9ac 100644
--- a/include/boost/cobalt/detail/with.hpp
+++ b/include/boost/cobalt/detail/with.hpp
@@ -7,6 +7,7 @@
 
 #include <boost/cobalt/concepts.hpp>
 #include <boost/cobalt/this_coro.hpp>
+#include <boost/cobalt/unique_handle.hpp>
 
 #include <boost/asio/cancellation_signal.hpp>
 
@@ -93,7 +94,7 @@ struct with_impl<T>::promise_type
     BOOST_COBALT_MSVC_NOINLINE
     auto await_suspend(std::coroutine_handle<promise_type> h) noexcept -> std::coroutine_handle<void>
     {
-      return std::coroutine_handle<void>::from_address(h.promise().awaited_from.address());
+      return std::coroutine_handle<void>::from_address(h.promise().awaited_from.release().address());
     }
 
     void await_resume() noexcept
@@ -109,7 +110,7 @@ struct with_impl<T>::promise_type
   cancellation_slot_type get_cancellation_slot() const {return slot_;}
   asio::cancellation_slot slot_;
 
-  std::coroutine_handle<void> awaited_from{nullptr};
+  unique_handle<void> awaited_from{nullptr};
 
 };
 
@@ -146,7 +147,7 @@ auto with_impl<T>::await_suspend(std::coroutine_handle<Promise> h) -> std::corou
     if constexpr (requires {h.promise().get_cancellation_slot();})
         promise.slot_ = h.promise().get_cancellation_slot();
 
-    promise.awaited_from = h;
+    promise.awaited_from.reset(h.address());
     return std::coroutine_handle<promise_type>::from_promise(promise);
 }
 
-- 
2.43.0


From 62d7d42432b92e56d3b4eca18d82706aad474299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 22/52] fix: awaiting a finished thread as_tuple does not read
 a missing result

---
 include/boost/cobalt/detail/thread.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 66e9f36..a72ae4a 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -195,6 +195,8 @@ struct thread_awaitable
       cl.clear();
     if (thread_)
       thread_->join();
+    if (!res) // await_ready
+      return {std::exception_ptr{}};
 
     return std::get<0>(*res);
   }
-- 
2.43.0


From f9cc0410360503238f93478d6735d9e08a7e32c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 23/52] fix: main coroutine's unsized operator delete frees the
 block it allocated

---
 include/boost/cobalt/detail/main.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/main.hpp b/include/boost/cobalt/detail/main.hpp
index b73519e..cd5ef46 100644
--- a/include/boost/cobalt/detail/main.hpp
+++ b/include/boost/cobalt/detail/main.hpp
@@ -66,19 +66,20 @@ struct main_promise : signal_helper,
 #else
   void * operator new(const std::size_t size)
   {
-      // embed the size at the end
+      // embed the size at the front
       constexpr auto sz = (std::max)(alignof(std::max_align_t), sizeof(std::size_t));
       auto data = my_resource->allocate(size + sz);
-
+      new (data) std::size_t(size);
       return static_cast<char*>(data) + sz;
   }
 
   void operator delete(void * data)
   {
       constexpr auto sz = (std::max)(alignof(std::max_align_t), sizeof(std::size_t));
-      const auto size = *reinterpret_cast<std::size_t*>(static_cast<char*>(data) - sz);
+      const auto raw = static_cast<char*>(data) - sz;
+      const auto size = *reinterpret_cast<std::size_t*>(raw);
 
-      return my_resource->deallocate(data, size);
+      return my_resource->deallocate(raw, size + sz);
   }
 #endif
 
-- 
2.43.0


From 444a824939ec94ba1c91bc55c59836531dde4dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 24/52] fix: allocation_failed() reports
 error::allocation_failed

---
 src/detail/exception.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/exception.cpp b/src/detail/exception.cpp
index f51a9c0..bc0a3e6 100644
--- a/src/detail/exception.cpp
+++ b/src/detail/exception.cpp
@@ -59,7 +59,7 @@ std::exception_ptr already_awaited()
 std::exception_ptr allocation_failed()
 {
   static auto ep = std::make_exception_ptr(system::system_error(
-      error::already_awaited
+      error::allocation_failed
   ));
   return ep;
 }
-- 
2.43.0


From 328381b02330f284dfe244d99ad6c3e98c3fa974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 25/52] fix: the buffer sequence iterators order begin before
 all others

---
 include/boost/cobalt/io/buffer.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/io/buffer.hpp b/include/boost/cobalt/io/buffer.hpp
index 9f18ae2..7d8802e 100644
--- a/include/boost/cobalt/io/buffer.hpp
+++ b/include/boost/cobalt/io/buffer.hpp
@@ -194,8 +194,9 @@ struct mutable_buffer_sequence
 
     friend auto operator<=>(const const_iterator & lhs, const const_iterator & rhs)
     {
-      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_)
-         <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_);
+      // the head has the maximal offset, but comes first
+      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_ + 1u)
+         <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_ + 1u);
     };
 
     friend bool operator==(const const_iterator & lhs, const const_iterator & rhs)
@@ -438,8 +439,9 @@ struct const_buffer_sequence
 
     friend auto operator<=>(const const_iterator & lhs, const const_iterator & rhs)
     {
-      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_)
-             <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_);
+      // the head has the maximal offset, but comes first
+      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_ + 1u)
+             <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_ + 1u);
     };
     friend bool operator==(const const_iterator & lhs, const const_iterator & rhs)
     {
-- 
2.43.0


From 2703b407705bc034cd7f691d1834db689fc3ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 26/52] fix: io::write_at accepts random access streams

---
 include/boost/cobalt/io/write.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/write.hpp b/include/boost/cobalt/io/write.hpp
index cccd0b6..bfc2543 100644
--- a/include/boost/cobalt/io/write.hpp
+++ b/include/boost/cobalt/io/write.hpp
@@ -48,7 +48,7 @@ struct BOOST_COBALT_IO_DECL write_all_at  final : op<system::error_code, std::si
 template<typename Stream>
 requires requires (Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
 {
-  {str.write_some_at(offset, buffer)} -> std::same_as<write_op>;
+  {str.write_some_at(offset, buffer)} -> std::same_as<write_at_op>;
 }
 [[nodiscard]] BOOST_COBALT_MSVC_NOINLINE
 write_all_at write_at(Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
-- 
2.43.0


From dfaf56f816ac0af207a8ef6f819b036ae9c85808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 27/52] fix: a composed operation forwards the cancellation of
 its awaiter

---
 include/boost/cobalt/composition.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 50dd688..7b319fb 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -128,7 +128,10 @@ struct composition_promise
   completion_handler<Args...> handler;
 
   template<typename ... Ts>
-  composition_promise(Ts && ... args) : handler(std::move(std::get<sizeof... (Ts) - 1>(std::tie(args...))))
+  composition_promise(Ts && ... args)
+      : promise_cancellation_base<asio::cancellation_slot, asio::enable_total_cancellation>(
+            std::get<sizeof... (Ts) - 1>(std::tie(args...)).get_cancellation_slot(), asio::enable_total_cancellation()),
+        handler(std::move(std::get<sizeof... (Ts) - 1>(std::tie(args...))))
   {
 
   }
-- 
2.43.0


From 57a2fb618260fbf414ac9821216d610d1b0d3e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 28/52] fix: a composed operation does not read its freed frame
 when it ends

---
 include/boost/cobalt/composition.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 7b319fb..65ca90a 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -155,13 +155,15 @@ struct composition_promise
     {
       auto exec = handler.get_executor();
       auto ho = handler.self.release();
+      auto completed_immediately = handler.completed_immediately;
+      // destroys this awaitable, too
       detail::self_destroy(h, exec);
 
-      if (handler.completed_immediately != nullptr
-       && *handler.completed_immediately == completed_immediately_t::initiating)
+      if (completed_immediately != nullptr
+       && *completed_immediately == completed_immediately_t::initiating)
         //not maybe here, because we don't go through the immediate executor
       {
-        *handler.completed_immediately = completed_immediately_t::yes;
+        *completed_immediately = completed_immediately_t::yes;
         return std::noop_coroutine();
       }
 
-- 
2.43.0


From ba503fd0dcc0fbb0ac57e7a893febe76a7b2c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 29/52] fix: udp_v6 is UDP

---
 include/boost/cobalt/io/endpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index 1dda880..c8e96de 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -115,7 +115,7 @@ constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET),   BOOST_ASIO_OS_DEF(SOCK_S
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_STREAM), BOOST_ASIO_OS_DEF(IPPROTO_TCP)>  tcp_v6{};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_UNSPEC), BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp   {};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET),   BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp_v4{};
-constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_ICMP)> udp_v6{};
+constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp_v6{};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_UNSPEC), BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_ICMP)> icmp  {};
 constexpr static_protocol<AF_UNIX,                      BOOST_ASIO_OS_DEF(SOCK_STREAM)>    local_stream   {};
 constexpr static_protocol<AF_UNIX,                      BOOST_ASIO_OS_DEF(SOCK_DGRAM)>     local_datagram {};
-- 
2.43.0


From af87997e8e43c2339d29cda39ed0fdb1f4510a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 30/52] fix: the size of a local endpoint covers its path

---
 src/io/endpoint.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 96c4f11..43e7fa6 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -8,6 +8,8 @@
 #include <boost/cobalt/io/endpoint.hpp>
 #include <boost/asio/ip/address.hpp>
 
+#include <cstddef>
+
 namespace boost::cobalt::detail
 {
 
@@ -41,7 +43,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNIX>,
   if (sv.size() >= sizeof(un->sun_path))
     BOOST_THROW_EXCEPTION(std::length_error("unix path too long"));
   *std::copy(sv.begin(), sv.end(), un->sun_path) = '\0';
-  return sizeof(un->sun_family + sv.size() + 1u);
+  return offsetof(asio::detail::sockaddr_un_type, sun_path) + sv.size() + 1u;
 }
 
 const local_endpoint* tag_invoke(get_endpoint_tag<AF_UNIX>,
-- 
2.43.0


From 6b484265e52fdd24cf554fa65a4957d8e5b0fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 31/52] fix: an unspecified endpoint with an ipv6 address has
 the size of an ipv6 endpoint

---
 src/io/endpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 43e7fa6..1bd6eae 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -211,7 +211,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNSPEC>,
     };
     auto a = ad.to_v6().to_bytes();
     std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
-    return sizeof(asio::detail::sockaddr_in4_type);
+    return sizeof(asio::detail::sockaddr_in6_type);
   }
 }
 
-- 
2.43.0


From 5b72f095d98ff40abba61de21d804241ceb81b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 32/52] fix: an endpoint can be resized to its capacity

---
 include/boost/cobalt/io/endpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index c8e96de..6661e0d 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -140,7 +140,7 @@ struct endpoint
   using addr_type = asio::detail::socket_addr_type;
   void resize(std::size_t size)
   {
-    BOOST_ASSERT(size < sizeof(storage_));
+    BOOST_ASSERT(size <= sizeof(storage_));
     size_ = size;
   }
 
-- 
2.43.0


From 4c4c0c52362ac2cae489298a07d4b55e4440140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 33/52] fix: an ipv6 address keeps the scope id of its text

---
 src/io/endpoint.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 1bd6eae..ebaa1fd 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -135,12 +135,14 @@ std::size_t tag_invoke(make_endpoint_tag<AF_INET6>,
 
   boost::static_string<46> addr{address.begin(), address.end()};
 
-  auto a = asio::ip::make_address_v6(addr.c_str()).to_bytes();
+  auto ad = asio::ip::make_address_v6(addr.c_str());
+  auto a = ad.to_bytes();
   auto in6 = new (base) asio::detail::sockaddr_in6_type{
       .sin6_family=AF_INET6,
       .sin6_port=boost::endian::native_to_big(port)
   };
   std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
+  in6->sin6_scope_id = static_cast<std::uint32_t>(ad.scope_id());
   return sizeof(asio::detail::sockaddr_in6_type);
 }
 
@@ -211,6 +213,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNSPEC>,
     };
     auto a = ad.to_v6().to_bytes();
     std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
+    in6->sin6_scope_id = static_cast<std::uint32_t>(ad.to_v6().scope_id());
     return sizeof(asio::detail::sockaddr_in6_type);
   }
 }
-- 
2.43.0


From 31edaa3af39243513a2f2247bb471e8639d4d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:48 +0000
Subject: [PATCH 34/52] fix: do not destroy the awaiter of a composed operation
 that throws

---
 include/boost/cobalt/composition.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 65ca90a..f0c1886 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -136,7 +136,14 @@ struct composition_promise
 
   }
 
-  void unhandled_exception() { throw ; }
+  void unhandled_exception()
+  {
+    // the exception goes to the awaiter, so don't destroy it with the handler.
+    if (handler.completed_immediately != nullptr
+     && *handler.completed_immediately == completed_immediately_t::initiating)
+      handler.self.release();
+    throw ;
+  }
   constexpr static std::suspend_never initial_suspend() {return {};}
 
   void return_value(std::tuple<Args ...> args)
-- 
2.43.0


From 75129614feb3f4bd1cd2102bfe33065195c8d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 35/52] fix: the receiver of a spawned task outlives the memory
 of its completion handler

---
 include/boost/cobalt/detail/spawn.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/spawn.hpp b/include/boost/cobalt/detail/spawn.hpp
index ba2364b..3872d2d 100644
--- a/include/boost/cobalt/detail/spawn.hpp
+++ b/include/boost/cobalt/detail/spawn.hpp
@@ -46,7 +46,7 @@ struct async_initiate_spawn
 #else
     auto alloc = asio::get_associated_allocator(h);
 #endif
-    auto recs = std::allocate_shared<detail::task_receiver<T>>(alloc, std::move(rec));
+    auto recs = std::make_shared<detail::task_receiver<T>>(std::move(rec));
 
     auto sl = asio::get_associated_cancellation_slot(h);
     if (sl.is_connected())
@@ -111,7 +111,7 @@ struct async_initiate_spawn
 #else
     auto alloc = asio::get_associated_allocator(h);
 #endif
-    auto recs = std::allocate_shared<detail::task_receiver<void>>(alloc, std::move(a.receiver_));
+    auto recs = std::make_shared<detail::task_receiver<void>>(std::move(a.receiver_));
 
     if (recs->done)
       return asio::dispatch(asio::get_associated_immediate_executor(h, exec),
-- 
2.43.0


From fc9c005495d11ed9383df16e621e033d74ecc974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 36/52] fix: the random access device has an include guard of
 its own

---
 include/boost/cobalt/io/random_access_device.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/io/random_access_device.hpp b/include/boost/cobalt/io/random_access_device.hpp
index ec605b5..46fbf62 100644
--- a/include/boost/cobalt/io/random_access_device.hpp
+++ b/include/boost/cobalt/io/random_access_device.hpp
@@ -5,8 +5,8 @@
 // file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 //
 
-#ifndef BOOST_COBALT_IO_STREAM_HPP
-#define BOOST_COBALT_IO_STREAM_HPP
+#ifndef BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
+#define BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
 
 #include <boost/cobalt/io/buffer.hpp>
 #include <boost/cobalt/io/ops.hpp>
@@ -34,4 +34,4 @@ struct random_access_device : random_access_read_device, random_access_write_dev
 
 }
 
-#endif //BOOST_COBALT_IO_STREAM_HPP
+#endif //BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
-- 
2.43.0


From 70f216150a4b715e7e384ac85f5fb9f5f9d5c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:16 +0000
Subject: [PATCH 37/52] fix: a seq_packet socket receives with the flags it is
 given

---
 src/io/seq_packet_socket.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/io/seq_packet_socket.cpp b/src/io/seq_packet_socket.cpp
index ef89de0..1cefe7e 100644
--- a/src/io/seq_packet_socket.cpp
+++ b/src/io/seq_packet_socket.cpp
@@ -51,18 +51,12 @@ void seq_packet_socket::adopt_endpoint_(endpoint & ep)
 
 void seq_packet_socket::receive_op::initiate(boost::cobalt::completion_handler<system::error_code, std::size_t> handler)
 {
-  if (out_flags != nullptr)
-    visit(buffer,
-          [&](auto buf)
-          {
-            socket_.async_receive(buf, in_flags, *out_flags, std::move(handler));
-          });
-  else
-    visit(buffer,
-          [&](auto buf)
-          {
-            socket_.async_receive(buf, in_flags, std::move(handler));
-          });
+  // the in_flags are no longer needed once passed on, so they can take flags nobody asked for
+  visit(buffer,
+        [&](auto buf)
+        {
+          socket_.async_receive(buf, in_flags, out_flags != nullptr ? *out_flags : in_flags, std::move(handler));
+        });
 }
 
 void seq_packet_socket::send_op::initiate(boost::cobalt::completion_handler<system::error_code, std::size_t> handler)
-- 
2.43.0


From 3a95ef3be1e22b9e37ca67e5551abdef2c8502bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:25 +0000
Subject: [PATCH 38/52] fix: a random access file seeks to the offset given

---
 src/io/random_access_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/random_access_file.cpp b/src/io/random_access_file.cpp
index 1f8c132..d49c29a 100644
--- a/src/io/random_access_file.cpp
+++ b/src/io/random_access_file.cpp
@@ -82,7 +82,7 @@ void initiate_async_read_some_at_helper(boost::asio::posix::basic_stream_descrip
                                         completion_handler<system::error_code, std::size_t> handler)
 {
 
-  if (lseek(str.native_handle(), SEEK_SET, offset) < 0)
+  if (::lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
@@ -95,7 +95,7 @@ void initiate_async_write_some_at_helper(boost::asio::posix::basic_stream_descri
                                         std::uint64_t offset, const_buffer_sequence seq,
                                         completion_handler<system::error_code, std::size_t> handler)
 {
-  if (lseek(str.native_handle(), SEEK_SET, offset) < 0)
+  if (::lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
-- 
2.43.0


From ea755af2e98da7b0df6e8337fed2b7a355f12218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 39/52] fix: a random access file that cannot seek completes
 after the coroutine is suspended

---
 src/io/random_access_file.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/io/random_access_file.cpp b/src/io/random_access_file.cpp
index d49c29a..cbec9d1 100644
--- a/src/io/random_access_file.cpp
+++ b/src/io/random_access_file.cpp
@@ -9,6 +9,10 @@
 
 #include <boost/cobalt/io/random_access_file.hpp>
 
+#include <boost/asio/append.hpp>
+#include <boost/asio/associated_immediate_executor.hpp>
+#include <boost/asio/dispatch.hpp>
+
 
 namespace boost::cobalt::io
 {
@@ -77,6 +81,13 @@ random_access_file::random_access_file(const native_handle_type & native_file,
 
 random_access_file::random_access_file(random_access_file && sf) noexcept = default;
 
+// the handler must not be invoked directly, that'd resume the coroutine that is still being suspended
+static void complete_immediately(system::error_code ec, completion_handler<system::error_code, std::size_t> handler)
+{
+  auto exec = asio::get_associated_immediate_executor(handler, handler.get_executor());
+  asio::dispatch(exec, asio::append(std::move(handler), ec, std::size_t(0u)));
+}
+
 void initiate_async_read_some_at_helper(boost::asio::posix::basic_stream_descriptor<executor> & str,
                                         std::uint64_t offset, mutable_buffer_sequence seq,
                                         completion_handler<system::error_code, std::size_t> handler)
@@ -85,7 +96,7 @@ void initiate_async_read_some_at_helper(boost::asio::posix::basic_stream_descrip
   if (::lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
-    return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
+    return complete_immediately(system::error_code{errno, ::boost::system::system_category(), &loc}, std::move(handler));
   }
 
   visit(seq, [&](auto buffer) {str.async_read_some(buffer, std::move(handler)); });
@@ -98,7 +109,7 @@ void initiate_async_write_some_at_helper(boost::asio::posix::basic_stream_descri
   if (::lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
-    return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
+    return complete_immediately(system::error_code{errno, ::boost::system::system_category(), &loc}, std::move(handler));
   }
 
   visit(seq, [&](auto buffer) {str.async_write_some(buffer, std::move(handler)); });
-- 
2.43.0


From 78b41690aaa36f56778163c64892ed0bf45f7e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 40/52] fix: seek returns the new position

---
 src/io/stream_file.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/io/stream_file.cpp b/src/io/stream_file.cpp
index 5fbd111..113cb3a 100644
--- a/src/io/stream_file.cpp
+++ b/src/io/stream_file.cpp
@@ -43,7 +43,7 @@ stream_file::stream_file(stream_file && sf) noexcept = default;
 system::result<std::uint64_t> stream_file::seek(std::int64_t offset, seek_basis whence)
 {
   system::error_code ec;
-  auto n = implementation_.seek(offset, whence);
+  auto n = implementation_.seek(offset, whence, ec);
   return ec ? ec : system::result<std::uint64_t>{n};
 }
 
@@ -104,10 +104,11 @@ stream_file::stream_file(stream_file && sf) noexcept = default;
 
 system::result<std::uint64_t> stream_file::seek(std::int64_t offset, seek_basis whence)
 {
-  if (::lseek(native_handle(), offset, whence) < 0)
+  const auto n = ::lseek(native_handle(), offset, whence);
+  if (n < 0)
     COBALT_RETURN_ERROR();
 
-  return {};
+  return static_cast<std::uint64_t>(n);
 }
 
 void stream_file::initiate_read_some_(void * this_, mutable_buffer_sequence buffer, boost::cobalt::completion_handler<system::error_code, std::size_t> handler)
-- 
2.43.0


From cc3e6b148a91228d949da097862695a3d0f531b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 41/52] fix: pipe returns its error

---
 src/io/pipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/pipe.cpp b/src/io/pipe.cpp
index dbd43f9..f0b43bf 100644
--- a/src/io/pipe.cpp
+++ b/src/io/pipe.cpp
@@ -130,7 +130,7 @@ system::result<std::pair<readable_pipe, writable_pipe>> pipe(const cobalt::execu
   readable_pipe r{executor};
   writable_pipe w{executor};
   system::error_code ec;
-  asio::connect_pipe(r.implementation_, w.implementation_);
+  asio::connect_pipe(r.implementation_, w.implementation_, ec);
   if (ec)
     return ec;
   else
-- 
2.43.0


From 9ed75469913799c6fbfd0b629e692eabb31ec589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:54 +0000
Subject: [PATCH 42/52] fix: cancel a file

---
 src/io/file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/file.cpp b/src/io/file.cpp
index 6d7bf11..5950916 100644
--- a/src/io/file.cpp
+++ b/src/io/file.cpp
@@ -107,7 +107,9 @@ result<void> file::assign(const native_handle_type & native_file)
 }
 result<void> file::cancel()
 {
-  return result<void>{};
+  boost::system::error_code ec;
+  file_.cancel(ec);
+  return ec ? ec : result<void>{};
 }
 
 executor file::get_executor() { return file_.get_executor();}
-- 
2.43.0


From 326c174f81064f02ff27ec56f1f16fd40698d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 43/52] fix: close the descriptor of a file that cannot be
 opened

---
 src/io/file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/file.cpp b/src/io/file.cpp
index 5950916..d9e1ced 100644
--- a/src/io/file.cpp
+++ b/src/io/file.cpp
@@ -133,6 +133,8 @@ result<void> file::open(const char * path, flags open_flags)
     COBALT_RETURN_ERROR();
   boost::system::error_code ec;
   file_.assign(r, ec);
+  if (ec)
+    ::close(r);
   return ec ? ec : result<void>{};
 }
 
-- 
2.43.0


From eda46cfa06e435699ba1965222a678f1b4977118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 44/52] fix: a cancellation does not reach an operation that is
 done

---
 include/boost/cobalt/detail/handler.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 3481193..972a805 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -260,10 +260,13 @@ struct completion_handler : detail::completion_handler_base
         result.emplace(std::move(args)...);
         BOOST_ASSERT(this->self != nullptr);
         auto p = this->self.release();
-        if (completed_immediately != nullptr
-        && *completed_immediately == detail::completed_immediately_t::maybe)
+        const auto ci = completed_immediately;
+        // the op is done, a later cancellation must not reach it. NOTE: `this` might be owned by the slot.
+        auto slot = cancellation_slot;
+        slot.clear();
+        if (ci != nullptr && *ci == detail::completed_immediately_t::maybe)
         {
-          *completed_immediately = detail::completed_immediately_t::yes;
+          *ci = detail::completed_immediately_t::yes;
           return;
         }
 
-- 
2.43.0


From d4db94641960d94728e80661c3f3122309983135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:56 +0000
Subject: [PATCH 45/52] fix: an ssl stream is secure after its handshake

---
 include/boost/cobalt/io/ssl.hpp |  8 ++++----
 src/io/ssl.cpp                  | 20 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/boost/cobalt/io/ssl.hpp b/include/boost/cobalt/io/ssl.hpp
index 2ad9506..76e02df 100644
--- a/include/boost/cobalt/io/ssl.hpp
+++ b/include/boost/cobalt/io/ssl.hpp
@@ -83,12 +83,12 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
   {
     void ready(handler<system::error_code> h) final;
     void initiate(completion_handler<system::error_code> h) final;
-    handshake_op_(handshake_type type, bool upgraded, asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
+    handshake_op_(handshake_type type, bool & upgraded, asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
         : type_(type), upgraded_(upgraded), stream_socket_(stream_socket) {}
     ~handshake_op_() = default;
    private:
     handshake_type type_;
-    bool upgraded_;
+    bool & upgraded_;
     asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>> &stream_socket_;
   };
 
@@ -97,13 +97,13 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
   {
     void ready(handler<system::error_code, std::size_t> h) final;
     void initiate(completion_handler<system::error_code, std::size_t> h) final;
-    handshake_buffer_op_(handshake_type type, bool upgraded, const_buffer_sequence buffer_,
+    handshake_buffer_op_(handshake_type type, bool & upgraded, const_buffer_sequence buffer_,
                          asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
         : type_(type), upgraded_(upgraded), buffer_(buffer_), stream_socket_(stream_socket) {}
     ~handshake_buffer_op_() = default;
    private:
     handshake_type type_;
-    bool upgraded_;
+    bool & upgraded_;
     const_buffer_sequence buffer_;
     asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>> &stream_socket_;
   };
diff --git a/src/io/ssl.cpp b/src/io/ssl.cpp
index 6c19e30..4a4f055 100644
--- a/src/io/ssl.cpp
+++ b/src/io/ssl.cpp
@@ -8,6 +8,8 @@
 #include <boost/cobalt/io/ssl.hpp>
 #include <boost/cobalt/io/stream_socket.hpp>
 
+#include <boost/asio/deferred.hpp>
+
 namespace boost::cobalt::io::ssl
 {
 
@@ -89,7 +91,14 @@ void stream::handshake_op_::ready(handler<system::error_code> handler)
 
 void stream::handshake_op_::initiate(completion_handler<system::error_code> handler)
 {
-  stream_socket_.async_handshake(type_, std::move(handler));
+  stream_socket_.async_handshake(
+      type_,
+      asio::deferred(
+          [&upgraded = upgraded_](system::error_code ec)
+          {
+            upgraded = !ec;
+            return asio::deferred.values(ec);
+          }))(std::move(handler));
 }
 
 void stream::handshake_buffer_op_::ready(handler<system::error_code, std::size_t> handler)
@@ -103,7 +112,14 @@ void stream::handshake_buffer_op_::ready(handler<system::error_code, std::size_t
 
 void stream::handshake_buffer_op_::initiate(completion_handler<system::error_code, std::size_t> handler)
 {
-  stream_socket_.async_handshake(type_, buffer_, std::move(handler));
+  stream_socket_.async_handshake(
+      type_, buffer_,
+      asio::deferred(
+          [&upgraded = upgraded_](system::error_code ec, std::size_t n)
+          {
+            upgraded = !ec;
+            return asio::deferred.values(ec, n);
+          }))(std::move(handler));
 }
 
 void stream::shutdown_op_::ready(handler<system::error_code> handler)
-- 
2.43.0


From 16f4e86e0d699de787373807897e4c6f568171ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:05 +0000
Subject: [PATCH 46/52] fix: a moved ssl stream refers to its own socket

---
 include/boost/cobalt/io/ssl.hpp | 1 +
 src/io/ssl.cpp                  | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/boost/cobalt/io/ssl.hpp b/include/boost/cobalt/io/ssl.hpp
index 76e02df..feec950 100644
--- a/include/boost/cobalt/io/ssl.hpp
+++ b/include/boost/cobalt/io/ssl.hpp
@@ -45,6 +45,7 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
 {
   BOOST_COBALT_SSL_DECL stream(context & ctx, const cobalt::executor & executor = this_thread::get_executor());
   BOOST_COBALT_SSL_DECL stream(context & ctx, stream_socket && sock);
+  BOOST_COBALT_SSL_DECL stream(stream && lhs);
   BOOST_COBALT_SSL_DECL stream(context & ctx, native_handle_type h, protocol_type protocol = protocol_type(),
                                      const cobalt::executor & executor = this_thread::get_executor());
   BOOST_COBALT_SSL_DECL stream(context & ctx, endpoint ep,
diff --git a/src/io/ssl.cpp b/src/io/ssl.cpp
index 4a4f055..ad69391 100644
--- a/src/io/ssl.cpp
+++ b/src/io/ssl.cpp
@@ -10,6 +10,8 @@
 
 #include <boost/asio/deferred.hpp>
 
+#include <utility>
+
 namespace boost::cobalt::io::ssl
 {
 
@@ -36,6 +38,12 @@ stream::stream(context & ctx, stream_socket && sock)
       socket(stream_socket_.lowest_layer())
 {}
 
+stream::stream(stream && lhs)
+    : stream_impl{.stream_socket_={std::move(lhs.stream_socket_)}},
+      socket(stream_socket_.lowest_layer()),
+      upgraded_(std::exchange(lhs.upgraded_, false))
+{}
+
 
 void stream::adopt_endpoint_(endpoint & ep)
 {
-- 
2.43.0


From 3bc5d9abae314dac5dcd0d8c4afb11e1f612932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 47/52] fix: do not unlock the mutex of a thread coroutine that
 is gone

---
 src/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 594ecd5..9f65644 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -46,7 +46,11 @@ void run_thread(
         st->ctx.get_executor(),
         [st, h = std::move(h)]() mutable
         {
-          std::lock_guard<std::mutex> lock{h->mtx};
+          {
+            // the spawning thread holds the mutex until the coroutine is suspended initially
+            std::lock_guard<std::mutex> lock{h->mtx};
+          }
+          // not under the lock, since the mutex is destroyed with the coroutine
           std::move(h).resume();
         });
 
-- 
2.43.0


From 4b859c024746dcb94c712fd223bfd2f48dbf5e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 48/52] fix: handlers in the context of a thread do not own the
 thread state

---
 include/boost/cobalt/detail/thread.hpp | 2 +-
 include/boost/cobalt/thread.hpp        | 4 ++--
 src/thread.cpp                         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index a72ae4a..fcd2cc9 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -150,7 +150,7 @@ struct thread_awaitable
             {
               std::lock_guard<std::mutex> lock{st->mtx};
               asio::post(st->ctx,
-                         [st, type]
+                         [st = st.get(), type] // not shared: the io_context owning the handler is a member of *st
                          {
                             BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
                             st->signal.emit(type);
diff --git a/include/boost/cobalt/thread.hpp b/include/boost/cobalt/thread.hpp
index 5145758..caec474 100644
--- a/include/boost/cobalt/thread.hpp
+++ b/include/boost/cobalt/thread.hpp
@@ -83,8 +83,8 @@ inline
 void thread::cancel(asio::cancellation_type type)
 {
   if (auto st = state_)
-    asio::post(state_->ctx,
-               [s= state_, type]
+    asio::post(st->ctx,
+               [s = st.get(), type] // not shared: the io_context owning the handler is a member of *s
                {
                  BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
                  s->signal.emit(type);
diff --git a/src/thread.cpp b/src/thread.cpp
index 9f65644..467e23e 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -44,7 +44,7 @@ void run_thread(
 
     asio::post(
         st->ctx.get_executor(),
-        [st, h = std::move(h)]() mutable
+        [h = std::move(h)]() mutable
         {
           {
             // the spawning thread holds the mutex until the coroutine is suspended initially
-- 
2.43.0


From 9b94f1a28ff8dd754bc4e146868101472eafa9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:42 +0000
Subject: [PATCH 49/52] fix: free the frame of a throwing thread coroutine

---
 include/boost/cobalt/detail/thread.hpp | 8 +++++++-
 src/thread.cpp                         | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index fcd2cc9..9ddc43b 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -83,7 +83,12 @@ struct thread_promise : signal_helper_2,
   }
 
 #if !defined(BOOST_NO_EXCEPTIONS)
-  void unhandled_exception() { throw; }
+  // ends the thread, but lets the coroutine reach its end, so that its frame gets freed.
+  void unhandled_exception() noexcept
+  {
+    *failure = std::current_exception();
+    wexec_->get_executor().context().stop();
+  }
 #endif
   void return_void() { }
 
@@ -115,6 +120,7 @@ struct thread_promise : signal_helper_2,
   }
 
   std::mutex mtx;
+  std::exception_ptr * failure = nullptr;
  private:
 
   std::optional<asio::executor_work_guard<asio::io_context::executor_type>> wexec_;
diff --git a/src/thread.cpp b/src/thread.cpp
index 467e23e..0e8bbae 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -42,6 +42,9 @@ void run_thread(
     h->set_executor(st->ctx.get_executor());
     boost::cobalt::this_thread::set_executor(st->ctx.get_executor());
 
+    std::exception_ptr ep;
+    h->failure = &ep;
+
     asio::post(
         st->ctx.get_executor(),
         [h = std::move(h)]() mutable
@@ -54,8 +57,6 @@ void run_thread(
           std::move(h).resume();
         });
 
-    std::exception_ptr ep;
-
     BOOST_TRY
     {
       st->ctx.run();
-- 
2.43.0


From fdbacd8b13fdf62dd6964237e6fc3f0a01b23c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:55 +0000
Subject: [PATCH 50/52] fix: the memory resource of a thread outlives its
 context

---
 include/boost/cobalt/detail/thread.hpp |  4 ++++
 src/thread.cpp                         | 10 ++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 9ddc43b..f5ba7ec 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -44,6 +44,10 @@ struct signal_helper_2
 
 struct thread_state
 {
+#if !defined(BOOST_COBALT_NO_PMR)
+  // outlives everything that is left in the context
+  pmr::unsynchronized_pool_resource resource;
+#endif
   asio::io_context ctx{1u};
   asio::cancellation_signal signal;
   std::mutex mtx;
diff --git a/src/thread.cpp b/src/thread.cpp
index 0e8bbae..8900e2c 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -30,14 +30,12 @@ void run_thread(
     unique_handle<thread_promise> h)
 {
 
-#if !defined(BOOST_COBALT_NO_PMR)
-  pmr::unsynchronized_pool_resource resource;
-  boost::cobalt::this_thread::set_default_resource(&resource);
-  h->resource = &resource;
-#endif
-
   {
     auto st = std::move(st_);
+#if !defined(BOOST_COBALT_NO_PMR)
+    boost::cobalt::this_thread::set_default_resource(&st->resource);
+    h->resource = &st->resource;
+#endif
     h->reset_cancellation_source(st->signal.slot());
     h->set_executor(st->ctx.get_executor());
     boost::cobalt::this_thread::set_executor(st->ctx.get_executor());
-- 
2.43.0


From dded969c8253ee0f868d8206197819b87e915e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 51/52] fix: a signal delivered as co_main ends does not touch
 its coroutine

---
 include/boost/cobalt/detail/main.hpp | 1 +
 src/main.cpp                         | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/main.hpp b/include/boost/cobalt/detail/main.hpp
index cd5ef46..6a359f5 100644
--- a/include/boost/cobalt/detail/main.hpp
+++ b/include/boost/cobalt/detail/main.hpp
@@ -147,6 +147,7 @@ struct main_promise : signal_helper,
     std::optional<asio::executor_work_guard<executor_type>> exec;
     std::optional<executor_type> exec_;
     asio::basic_signal_set<executor_type> * signal_set;
+    bool * done = nullptr;
     ::boost::cobalt::main get_return_object()
     {
         return ::boost::cobalt::main{this};
diff --git a/src/main.cpp b/src/main.cpp
index aaa958f..524999e 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -20,6 +20,8 @@ auto main_promise::final_suspend() noexcept -> std::suspend_never
   system::error_code ec;
   if (signal_set)
     signal_set->cancel(ec);
+  if (done)
+    *done = true;
   return std::suspend_never(); // enable_yielding_tasks::final_suspend();
 }
 
@@ -34,13 +36,18 @@ int main_promise::run_main(::boost::cobalt::main mn)
   auto p = std::coroutine_handle<detail::main_promise>::from_promise(*mn.promise);
   asio::basic_signal_set<executor_type> ss{ctx, SIGINT, SIGTERM};
   mn.promise->signal_set = &ss;
+  bool done = false;
+  mn.promise->done = &done;
   struct work
   {
     asio::basic_signal_set<executor_type> & ss;
     asio::cancellation_signal & signal;
+    const bool & done;
     void operator()(system::error_code ec, int sig) const
     {
       BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
+      if (done) // the signal was delivered just before the coroutine ended, which owned `signal`
+        return;
       if (sig == SIGINT)
         signal.emit(asio::cancellation_type::total);
       if (sig == SIGTERM)
@@ -50,7 +57,7 @@ int main_promise::run_main(::boost::cobalt::main mn)
     }
   };
 
-  ss.async_wait(work{ss, mn.promise->signal});
+  ss.async_wait(work{ss, mn.promise->signal, done});
   asio::post(ctx.get_executor(),
              [p]
              {
-- 
2.43.0


From 1b4d658b5074d846834d1ddd466917d3d5c22683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:47 +0000
Subject: [PATCH 52/52] fix: a race over a range moves its result out

---
 include/boost/cobalt/detail/race.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index b6f4f8a..adc5e38 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -662,7 +662,7 @@ struct race_ranged_impl
       if constexpr (std::is_void_v<result_type>)
         return index;
       else
-        return std::make_pair(index, *result);
+        return std::make_pair(index, std::move(*result));
     }
 
     auto await_resume(const as_tuple_tag &)
-- 
2.43.0


From b9eaf6c76ea70c94bd89bcc9ad160bfee6009dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:04 +0000
Subject: [PATCH 01/67] fix: set the thread pool stop flag under its mutex
 (lost wake-up hung shutdown)

---
 src/core_thread_pool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_thread_pool.hpp b/src/core_thread_pool.hpp
index 16387c2..c29e45b 100644
--- a/src/core_thread_pool.hpp
+++ b/src/core_thread_pool.hpp
@@ -85,7 +85,10 @@ public:
     {
         if (! stop)
         {
-            stop = true;
+            {
+                std::lock_guard<std::mutex> lock(mutex);
+                stop = true;
+            }
             condition.notify_all();
 
             for (auto& thread : threads)
-- 
2.43.0


From 5550d908c10f6cf5be5f6bbfc95477583480c6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:04 +0000
Subject: [PATCH 02/67] fix: deliver exceptions thrown by thread pool tasks
 through their future

---
 src/core_thread_pool.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core_thread_pool.hpp b/src/core_thread_pool.hpp
index c29e45b..ebc7211 100644
--- a/src/core_thread_pool.hpp
+++ b/src/core_thread_pool.hpp
@@ -107,7 +107,13 @@ public:
 
         enqueue_internal([fn, promised_result, args...]
         {
-            promised_result->set_value(fn(args...));
+            try {
+                promised_result->set_value(fn(args...));
+            }
+            catch (...)
+            {
+                promised_result->set_exception(std::current_exception());
+            }
         });
         return promised_result->get_future();
     }
-- 
2.43.0


From 37bef10b120af68672ddc650c035a9e27a9dded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:33 +0000
Subject: [PATCH 03/67] fix: accumulate shape volumes in std::size_t
 (overflowed int for large shapes)

---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 5e37083..af30d75 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -327,7 +327,7 @@ public:
 
     std::size_t volume() const
     {
-        return std::accumulate(this->begin(), this->end(), 1, std::multiplies<>());
+        return std::accumulate(this->begin(), this->end(), std::size_t(1), std::multiplies<>());
     }
 
     bool contains(const index_t<Rank>& index) const
-- 
2.43.0


From ce52b530fcc088c5d82e53e170514c2323d08eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:33 +0000
Subject: [PATCH 04/67] fix: an empty strided index selection has extent zero
 (unsigned wrap-around)

---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index af30d75..f345c27 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -553,7 +553,7 @@ public:
 
         for (std::size_t n = 0; n < Rank; ++n)
         {
-            s[n] = (final[n] - start[n] - 1) / jumps[n] + 1;
+            s[n] = final[n] > start[n] ? (final[n] - start[n] - 1) / jumps[n] + 1 : 0;
         }
         return s;
     }
-- 
2.43.0


From 31dc417ffb7c2628bd4884a0080645e0bbc776ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:33 +0000
Subject: [PATCH 05/67] fix: iterating an empty index selection visits nothing

---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index f345c27..8416f90 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -716,7 +716,7 @@ public:
 
 
     //=========================================================================
-    iterator begin() const { return { *this, start }; }
+    iterator begin() const { return { *this, empty() ? final : start }; }
     iterator end() const { return { *this, final }; }
 
 
-- 
2.43.0


From cba7fe67c891e09805ceacb76ad58817d27b4727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:34 +0000
Subject: [PATCH 06/67] fix: accept strided selections whose last index lies
 inside the array

---
 src/core_ndarray.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 8416f90..36254c9 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -704,12 +704,17 @@ public:
      */
     bool within(const shape_t<Rank>& parent_shape) const
     {
-        auto zero = make_uniform_index<Rank>(0);
-        auto t1 = map_index(zero);
-        auto t2 = map_index(shape().last_index());
+        if (empty())
+        {
+            return start <= parent_shape.last_index() && final <= parent_shape.last_index();
+        }
+        auto last = shape().last_index();
 
-        return (t1 >= zero && t1 <= parent_shape.last_index() &&
-                t2 >= zero && t2 <= parent_shape.last_index());
+        for (std::size_t n = 0; n < Rank; ++n)
+        {
+            last[n] -= 1;
+        }
+        return parent_shape.contains(map_index(last));
     }
 
 
-- 
2.43.0


From 064222a2868c2e0fed8093f41d159b7d3f9244dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:32 +0000
Subject: [PATCH 07/67] fix: shifting an array by a positive amount no longer
 reads before its start

---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 36254c9..860b4f8 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -924,7 +924,7 @@ public:
         }
         auto mapping = [axis_to_shift=axis_to_shift, delta=delta, array] (auto index)
         {
-            index[axis_to_shift] -= delta;
+            index[axis_to_shift] += delta < 0 ? -delta : 0;
             return array(index);
         };
         auto shape = array.shape();
-- 
2.43.0


From 6342f3f435354401dc1cdc6cd2a33daad262c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:32 +0000
Subject: [PATCH 08/67] fix: refuse out-of-bounds selections on an axis

---
 src/core_ndarray.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 860b4f8..a46a54f 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -867,6 +867,11 @@ public:
         accessor.final[axis_to_select] = is_final_from_the_end ? array.shape(axis_to_select) - final : final;
         accessor.jumps[axis_to_select] = jumps;
 
+        if (accessor.start[axis_to_select] > accessor.final[axis_to_select] || accessor.final[axis_to_select] > array.shape(axis_to_select))
+        {
+            throw std::logic_error("out-of-bounds selection on axis");
+        }
+
         auto mapping = [accessor, array] (auto index)
         {
             return array(accessor.map_index(index));
-- 
2.43.0


From 439ca3f3615a8b88e05de4cc101e5fac76abf601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:32 +0000
Subject: [PATCH 09/67] fix: refuse to freeze an axis at an out-of-bounds index

---
 src/core_ndarray.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index a46a54f..293b7d8 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -972,6 +972,10 @@ public:
             if (a >= array.rank())
                 throw std::logic_error("cannot freeze axis greater than or equal to array rank");
 
+        for (std::size_t n = 0; n < RankDifference; ++n)
+            if (index_to_freeze_at[n] >= array.shape(axes_to_freeze[n]))
+                throw std::logic_error("cannot freeze axis at an out-of-bounds index");
+
         auto mapping = [axes_to_freeze=axes_to_freeze, index_to_freeze_at=index_to_freeze_at, array] (auto&& index)
         {
             return array(index.insert_elements(axes_to_freeze, index_to_freeze_at));
-- 
2.43.0


From e9a65d2b8cbad3a896ab9a8bea6c3aef5adc9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:32 +0000
Subject: [PATCH 10/67] fix: refuse to replace a region that lies outside the
 array

---
 src/core_ndarray.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 293b7d8..f1a8c36 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -1124,6 +1124,10 @@ public:
         {
             throw std::logic_error("region to replace has a different shape than the replacement array");
         }
+        if (! region.within(array_to_patch.shape()))
+        {
+            throw std::logic_error("region to replace lies outside the array");
+        }
 
         auto mapping = [region=region, replacement_array=replacement_array, array_to_patch] (auto&& index)
         {
-- 
2.43.0


From 304d3291b3f271829a06207057c718b6211cb005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:32 +0000
Subject: [PATCH 11/67] fix: arange(start, final, step) yields the documented
 elements

---
 src/core_ndarray.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index f1a8c36..8688b2e 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -2535,14 +2535,16 @@ auto nd::arange(int count)
  */
 auto nd::arange(int start, int final, int step)
 {
-    if (step == 0 || final / step - start / step < 0)
+    if (step == 0 || (step > 0 ? final < start : final > start))
     {
         throw std::invalid_argument("nd::range");
     }
+    int count = (final - start) / step + ((final - start) % step != 0);
+
     return make_array([=] (auto index)
     {
-        return start + index[0] * step;
-    }, nd::make_shape(final / step - start / step));
+        return start + int(index[0]) * step;
+    }, nd::make_shape(count));
 }
 
 
-- 
2.43.0


From 7e91d287b6503c41adb417319e4879ea6c01dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:32 +0000
Subject: [PATCH 12/67] fix: linspace with one element returns its starting
 value instead of NaN

---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 8688b2e..8ad90ac 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -2565,7 +2565,7 @@ auto nd::linspace(double x0, double x1, std::size_t count)
 {
     auto mapping = [x0, x1, count] (auto index)
     {
-        return x0 + (x1 - x0) * index[0] / (count - 1);
+        return count > 1 ? x0 + (x1 - x0) * index[0] / (count - 1) : x0;
     };
     return make_array(mapping, make_shape(count));
 }
-- 
2.43.0


From 19acead0cb83e0de61374003e69adbb70fdf227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:38 +0000
Subject: [PATCH 13/67] fix: rational zero is kept in lowest terms, so that
 equal zeros compare equal

---
 src/core_rational.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_rational.hpp b/src/core_rational.hpp
index e391319..bd09abe 100644
--- a/src/core_rational.hpp
+++ b/src/core_rational.hpp
@@ -189,6 +189,10 @@ private:
             num /= g;
             den /= g;
         }
+        else
+        {
+            den = 1;
+        }
         if (den < 0)
         {
             num *= -1;
-- 
2.43.0


From 199a9e5e2a0b9b7ce4a8d40a973f086080a5f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:38 +0000
Subject: [PATCH 14/67] fix: append, concatenate and compare lists iteratively
 (long lists exhausted the stack)

---
 src/core_linked_list.hpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/core_linked_list.hpp b/src/core_linked_list.hpp
index ecb1803..edf093e 100644
--- a/src/core_linked_list.hpp
+++ b/src/core_linked_list.hpp
@@ -235,7 +235,7 @@ struct mara::linked_list_t
      */
     linked_list_t append(const value_type& value) const
     {
-        return empty() ? linked_list_t(value, *this) : tail().append(value).prepend(head());
+        return concat(linked_list_t().prepend(value));
     }
 
 
@@ -251,7 +251,13 @@ struct mara::linked_list_t
      */
     linked_list_t concat(const linked_list_t& other) const
     {
-        return empty() ? other : linked_list_t(head(), tail().concat(other));
+        auto result = other;
+
+        for (const auto& value : reverse())
+        {
+            result = result.prepend(value);
+        }
+        return result;
     }
 
 
@@ -349,15 +355,19 @@ struct mara::linked_list_t
      */
     bool operator==(const linked_list_t& other) const
     {
-        if (! empty() && ! other.empty())
-        {
-            return head() == other.head() && tail() == other.tail();
-        }
-        if (empty() && other.empty())
+        auto A = this;
+        auto B = &other;
+
+        while (! A->empty() && ! B->empty())
         {
-            return true;
+            if (! (A->head() == B->head()))
+            {
+                return false;
+            }
+            A = &A->tail();
+            B = &B->tail();
         }
-        return false;
+        return A->empty() && B->empty();
     }
 
 
-- 
2.43.0


From 93520e9b5dede26b920e97f869ea1403eb33758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 15/67] fix: derivable tuples can be compared (misspelled
 member)

---
 src/core_tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_tuple.hpp b/src/core_tuple.hpp
index f8d82bc..4b855dd 100644
--- a/src/core_tuple.hpp
+++ b/src/core_tuple.hpp
@@ -227,8 +227,8 @@ template<typename DerivedType, typename... Types>
 struct mara::derivable_tuple_t
 {
     //=========================================================================
-    bool operator==(const DerivedType& other) const { return __impl.operator==(other.__impl).to_sequenc().all(); }
-    bool operator!=(const DerivedType& other) const { return __impl.operator!=(other.__impl).to_sequenc().any(); }
+    bool operator==(const DerivedType& other) const { return __impl.operator==(other.__impl).to_sequence().all(); }
+    bool operator!=(const DerivedType& other) const { return __impl.operator!=(other.__impl).to_sequence().any(); }
     template<typename T> DerivedType operator*(const T& other)   const { return DerivedType{{__impl.operator*(other)}}; }
     template<typename T> DerivedType operator/(const T& other)   const { return DerivedType{{__impl.operator/(other)}}; }
     DerivedType operator+(const DerivedType& other) const { return DerivedType{{__impl.operator+(other.__impl)}}; }
-- 
2.43.0


From db688deee6f777562c391975d17766916c6d8d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:33 +0000
Subject: [PATCH 16/67] fix: unit vectors built from components are normalised

---
 src/core_geometric.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core_geometric.hpp b/src/core_geometric.hpp
index 3ce7484..aa91035 100644
--- a/src/core_geometric.hpp
+++ b/src/core_geometric.hpp
@@ -77,9 +77,9 @@ public:
     unit_vector_t(double n1, double n2, double n3) : n1(n1), n2(n2), n3(n3)
     {
         auto n = std::sqrt(n1 * n1 + n2 * n2 + n3 * n3);
-        n1 /= n;
-        n2 /= n;
-        n3 /= n;
+        this->n1 /= n;
+        this->n2 /= n;
+        this->n3 /= n;
     }
 
     template<typename ScalarType>
-- 
2.43.0


From c1ee409443bb7cd1804011728df71987d378085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:15 +0000
Subject: [PATCH 17/67] fix: refuse option values with trailing characters
 instead of truncating them

---
 src/app_config.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/app_config.hpp b/src/app_config.hpp
index d143f4f..6ef3644 100644
--- a/src/app_config.hpp
+++ b/src/app_config.hpp
@@ -106,10 +106,20 @@ public:
         {
             throw std::invalid_argument("config has no option " + key);
         }
+        auto require_whole = [&] (auto parsed, std::size_t num_parsed)
+        {
+            if (num_parsed != value.size())
+            {
+                throw std::invalid_argument("config got malformed value " + value + " for option " + key);
+            }
+            return config_parameter_t(parsed);
+        };
+        auto n = std::size_t(0);
+
         switch (template_items.at(key).index())
         {
-            case 0: return std::move(*this).set(key, config_parameter_t(std::stoi(value)));
-            case 1: return std::move(*this).set(key, config_parameter_t(std::stod(value)));
+            case 0: { auto i = std::stoi(value, &n); return std::move(*this).set(key, require_whole(i, n)); }
+            case 1: { auto d = std::stod(value, &n); return std::move(*this).set(key, require_whole(d, n)); }
             case 2: return std::move(*this).set(key, config_parameter_t(value));
         }
         return *this;
-- 
2.43.0


From 165090d6bda1ad6e9f9a1074f1b88132db33aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:26 +0000
Subject: [PATCH 18/67] fix: template solver checkpoints store the completed
 task, so a restart does not overwrite them

---
 src/subprog_boilerplate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_boilerplate.cpp b/src/subprog_boilerplate.cpp
index c8092ac..126f709 100644
--- a/src/subprog_boilerplate.cpp
+++ b/src/subprog_boilerplate.cpp
@@ -203,7 +203,7 @@ static void write_checkpoint(const app_state_t& state)
     auto count = state.schedule.num_times_performed("write_checkpoint");
     auto file = h5::File(mara::create_numbered_filename("chkpt", count, "h5"), "w");
     write_solution(file.require_group("solution"), state.solution_state);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), mara::complete_task_in(state, "write_checkpoint").schedule);
     mara::write_config(file.require_group("run_config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
-- 
2.43.0


From 00fdd377b4108e3879e9677435a8c3947233ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:26 +0000
Subject: [PATCH 19/67] fix: sedov checkpoints store run_config under the name
 the restart reads

---
 src/subprog_sedov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 47b921a..1de83d2 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -489,7 +489,7 @@ void SedovProblem<HydroSystem>::write_checkpoint(const app_state_t& state, std::
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution_state);
     mara::write_schedule(file.require_group("schedule"), state.schedule);
-    mara::write_config(file.require_group("config"), state.run_config);
+    mara::write_config(file.require_group("run_config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
 }
-- 
2.43.0


From 15deecdf9a6ff4e208ed721a134ab80be5035d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:26 +0000
Subject: [PATCH 20/67] fix: sedov writes checkpoints after its other tasks and
 with completed counts (restart repeated or lost outputs)

---
 src/subprog_sedov.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 1de83d2..5b96b49 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -488,7 +488,7 @@ void SedovProblem<HydroSystem>::write_checkpoint(const app_state_t& state, std::
     auto count = state.schedule.num_times_performed("write_checkpoint");
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution_state);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), mara::complete_task_in(state, "write_checkpoint").schedule);
     mara::write_config(file.require_group("run_config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
@@ -562,11 +562,6 @@ auto SedovProblem<HydroSystem>::run_tasks(const app_state_t& state)
     auto next_state = state;
     auto outdir = state.run_config.get_string("outdir");
 
-    if (state.schedule.is_due("write_checkpoint"))
-    {
-        write_checkpoint(state, outdir);
-        next_state.schedule.mark_as_completed("write_checkpoint");
-    }
     if (state.schedule.is_due("write_diagnostics"))
     {
         write_diagnostics(state, outdir);
@@ -577,6 +572,11 @@ auto SedovProblem<HydroSystem>::run_tasks(const app_state_t& state)
         write_time_series(state, outdir);
         next_state.schedule.mark_as_completed("write_time_series");
     }
+    if (state.schedule.is_due("write_checkpoint"))
+    {
+        write_checkpoint(next_state, outdir);
+        next_state.schedule.mark_as_completed("write_checkpoint");
+    }
     return next_state;
 }
 
-- 
2.43.0


From cc440011bcb8f1494b40aea7c6d35c425f240a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:26 +0000
Subject: [PATCH 21/67] fix: cloud writes checkpoints after its other tasks and
 with completed counts (restart repeated or lost outputs)

---
 src/subprog_cloud.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/subprog_cloud.cpp b/src/subprog_cloud.cpp
index e2d9a96..3d8c27b 100644
--- a/src/subprog_cloud.cpp
+++ b/src/subprog_cloud.cpp
@@ -760,7 +760,7 @@ void CloudProblem::write_checkpoint(const app_state_t& state, std::string outdir
     auto count = state.schedule.num_times_performed("write_checkpoint");
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), mara::complete_task_in(state, "write_checkpoint").schedule);
     mara::write_config(file.require_group("config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
@@ -831,11 +831,6 @@ auto CloudProblem::run_tasks(const app_state_t& state)
     auto next_state = state;
     auto outdir = state.run_config.get_string("outdir");
 
-    if (state.schedule.is_due("write_checkpoint"))
-    {
-        write_checkpoint(state, outdir);
-        next_state.schedule.mark_as_completed("write_checkpoint");
-    }
     if (state.schedule.is_due("write_diagnostics"))
     {
         write_diagnostics(state, outdir);
@@ -846,6 +841,11 @@ auto CloudProblem::run_tasks(const app_state_t& state)
         write_time_series(state, outdir);
         next_state.schedule.mark_as_completed("write_time_series");
     }
+    if (state.schedule.is_due("write_checkpoint"))
+    {
+        write_checkpoint(next_state, outdir);
+        next_state.schedule.mark_as_completed("write_checkpoint");
+    }
     return next_state;
 }
 
-- 
2.43.0


From ac48ece5f49bf6477491a499270450793b1511ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:58 +0000
Subject: [PATCH 22/67] fix: sedov and cloud prepare the output directory also
 when restarting into a new one

---
 src/subprog_cloud.cpp |  6 +++---
 src/subprog_sedov.cpp | 11 ++++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/subprog_cloud.cpp b/src/subprog_cloud.cpp
index 3d8c27b..d227741 100644
--- a/src/subprog_cloud.cpp
+++ b/src/subprog_cloud.cpp
@@ -890,11 +890,11 @@ void CloudProblem::print_run_dimensions(std::ostream& output, const mara::config
 
 void CloudProblem::prepare_filesystem(const mara::config_t& cfg)
 {
+    auto outdir = cfg.get_string("outdir");
+    mara::filesystem::require_dir(outdir);
+
     if (cfg.get_string("restart").empty())
     {
-        auto outdir = cfg.get_string("outdir");
-        mara::filesystem::require_dir(outdir);
-
         auto file = h5::File(mara::filesystem::join(outdir, "time_series.h5"), "w");
         auto plist = h5::PropertyList::dataset_create().set_chunk(1000);
         auto space = h5::Dataspace::unlimited(0);
diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 5b96b49..765db0f 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -597,12 +597,13 @@ void SedovProblem<HydroSystem>::print_run_loop_message(const solution_state_t& s
 template<typename HydroSystem>
 void SedovProblem<HydroSystem>::prepare_filesystem(const mara::config_t& cfg)
 {
-    if (cfg.get_string("restart").empty())
-    {
-        auto outdir = cfg.get_string("outdir");
-        mara::filesystem::require_dir(outdir);
+    auto outdir = cfg.get_string("outdir");
+    auto fname = mara::filesystem::join(outdir, "time_series.h5");
+    mara::filesystem::require_dir(outdir);
 
-        auto file = h5::File(mara::filesystem::join(outdir, "time_series.h5"), "w");
+    if (cfg.get_string("restart").empty() || ! mara::filesystem::isfile(fname))
+    {
+        auto file = h5::File(fname, "w");
         auto plist = h5::PropertyList::dataset_create().set_chunk(1000);
         auto space = h5::Dataspace::unlimited(0);
 
-- 
2.43.0


From 6a1aa4f5ea17c94604180f38330b9533a9a970bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:58 +0000
Subject: [PATCH 23/67] fix: require_dir creates absolute paths where they say,
 not below the working directory

---
 src/app_filesystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index f7a952e..6496d7b 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -136,7 +136,7 @@ std::string mara::filesystem::parent(std::string path)
 
 void mara::filesystem::require_dir(std::string path)
 {
-    auto partial = std::string(".");
+    auto partial = std::string(path.substr(0, 1) == "/" ? "" : ".");
 
     for (auto dir : split(path))
     {
-- 
2.43.0


From 00cc1a67b01b0007786d2e6d6ca721a66fac8c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:58 +0000
Subject: [PATCH 24/67] fix: isfile and isdir compare the file type instead of
 testing overlapping bits

---
 src/app_filesystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index 6496d7b..7a01954 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -214,7 +214,7 @@ bool mara::filesystem::isfile(std::string path)
 
     if (stat(path.data(), &s) == 0)
     {
-        return s.st_mode & S_IFREG;
+        return S_ISREG(s.st_mode);
     }
     return false;
 }
@@ -225,7 +225,7 @@ bool mara::filesystem::isdir(std::string path)
 
     if (stat(path.data(), &s) == 0)
     {
-        return s.st_mode & S_IFDIR;
+        return S_ISDIR(s.st_mode);
     }
     return false;
 }
-- 
2.43.0


From f3d22dc866e29f073a58627dca535a5ed5341fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:58 +0000
Subject: [PATCH 25/67] fix: remove_recurse removes symbolic links instead of
 what they point to

---
 src/app_filesystem.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index 7a01954..f30c086 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -166,7 +166,12 @@ int mara::filesystem::remove_recurse(std::string path)
     */
 
     int res = -1;
+    struct stat pathbuf;
 
+    if (! lstat(path.data(), &pathbuf) && S_ISLNK(pathbuf.st_mode))
+    {
+        return unlink(path.data());
+    }
     if (auto d = opendir(path.data()))
     {
         struct dirent *p;
@@ -185,7 +190,7 @@ int mara::filesystem::remove_recurse(std::string path)
             std::snprintf(&buf[0], buf.size(), "%s/%s", path.data(), p->d_name);
             struct stat statbuf;
 
-            if (! stat(buf.data(), &statbuf))
+            if (! lstat(buf.data(), &statbuf))
             {
                 if (S_ISDIR(statbuf.st_mode))
                 {
-- 
2.43.0


From 1e22ec1eae2b59a9e8c2676dee7a03598eeaf58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:58 +0000
Subject: [PATCH 26/67] fix: a dot in a directory name is not a file extension

---
 src/app_filesystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index f30c086..06e00a5 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -120,8 +120,9 @@ std::string mara::filesystem::join(std::vector<std::string> parts)
 std::string mara::filesystem::extension(std::string path)
 {
     auto dot = path.rfind('.');
+    auto slash = path.rfind('/');
 
-    if (dot != std::string::npos)
+    if (dot != std::string::npos && (slash == std::string::npos || dot > slash))
     {
         return path.substr(dot);
     }
-- 
2.43.0


From eb59e59628fb59031683ac6b6124075836bc86ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:43 +0000
Subject: [PATCH 27/67] fix: adaptive time step works with angular-momentum
 conserving variables

---
 src/subprog_binary_scheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index 9bbf3a1..263af0f 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -1111,7 +1111,7 @@ double binary::maximum_timestep(const solution_t& solution,
     auto binary = mara::compute_two_body_state(solution.orbital_elements, solution.time.value);
     auto spacing_at_root = 2.0 * solver_data.domain_radius.value / solver_data.block_size;
 
-    return solution.conserved_u.indexes().map([&] (auto index)
+    return primitive.indexes().map([&] (auto index)
     {
         auto xc = solver_data.cell_centers.at(index);
         auto pc = primitive.at(index);
-- 
2.43.0


From f6cae8b8016174cec66d3aacb8ab3945306b5850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:19 +0000
Subject: [PATCH 28/67] fix: interpolated shock radius does not read outside
 the grid when the shock is at its edge

---
 src/subprog_sedov.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 765db0f..a39da4b 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -289,8 +289,12 @@ auto SedovProblem<HydroSystem>::compute_time_series_data(const solution_state_t&
     auto rc = state.vertices | nd::midpoint_on_axis(0);
     auto vc = primitive | nd::map([] (auto p) { return radial_velocity_or_gamma_beta(p); });
 
-    auto find_vertex = [rc, vc] (auto i)
+    auto find_vertex = [rc, vc] (std::size_t i)
     {
+        if (i == 0 || i + 1 >= rc.size())
+        {
+            return rc(i);
+        }
         return mara::parabola_vertex(
             rc(i - 1), rc(i), rc(i + 1),
             vc(i - 1), vc(i), vc(i + 1)).first;
-- 
2.43.0


From dfebc4fd780e0b479d87772f035dbd4d748d5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:12 +0000
Subject: [PATCH 29/67] fix: asking a tree whether a branch position is a leaf
 returns false (shifted by a negative amount)

---
 src/core_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index ebe5288..5215b5a 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -485,9 +485,9 @@ struct mara::arithmetic_binary_tree_t
      */
     bool contains(const tree_index_t<Rank>& index) const
     {
-        if (has_value())
+        if (has_value() || index.level == 0)
         {
-            return index.level == 0 && ! index.coordinates.any();
+            return has_value() && index.level == 0 && ! index.coordinates.any();
         }
         return child_at(index.orthant()).contains(index.advance_level());
     }
-- 
2.43.0


From a8657d46d50291b08bd6e4b94c7f517a663880d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:12 +0000
Subject: [PATCH 30/67] fix: tree lookup at a branch position throws
 out_of_range as documented, so find returns empty

---
 src/core_tree.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index 5215b5a..68a1434 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -449,7 +449,13 @@ struct mara::arithmetic_binary_tree_t
      */
     const value_type& at(const tree_index_t<Rank>& index) const
     {
-        return node_at(index).value();
+        const auto& node = node_at(index);
+
+        if (! node.has_value())
+        {
+            throw std::out_of_range("mara::arithmetic_binary_tree_t::at (node is not a leaf)");
+        }
+        return node.value();
     }
 
 
-- 
2.43.0


From a8ae62b559c089df02ca5d09504a20765c861a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:12 +0000
Subject: [PATCH 31/67] fix: the Hilbert index uses the number of positions on
 its level, not the level number

---
 src/core_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index 68a1434..977aa62 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -1069,5 +1069,5 @@ std::size_t mara::hilbert_index(tree_index_t<2> index)
         return d;
     };
 
-    return xy2d(index.level, index.coordinates[0], index.coordinates[1]);
+    return xy2d(1 << index.level, index.coordinates[0], index.coordinates[1]);
 }
-- 
2.43.0


From e95dfa6ff10144f1f37d9a4c7bfc2cd2679175a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:32 +0000
Subject: [PATCH 32/67] fix: block lookups refuse positions that no leaf or
 parent covers (recursed without end) and handle the root

---
 src/mesh_tree_operators.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mesh_tree_operators.hpp b/src/mesh_tree_operators.hpp
index a02a36a..6857467 100644
--- a/src/mesh_tree_operators.hpp
+++ b/src/mesh_tree_operators.hpp
@@ -233,7 +233,7 @@ auto mara::get_cell_block(const arithmetic_binary_tree_t<ValueType, Rank>& tree,
         // If the tree has a value at the node above the target index, then refine
         // the data on that node (yielding 2^Rank arrays) and select the array in
         // the index's orthant.
-        if (tree.contains(index.parent_index()))
+        if (index.level > 0 && tree.contains(index.parent_index()))
         {
             auto ib = mara::to_integral(index.relative_to_parent().orthant());
             return (tree.at(index.parent_index()) | mara::refine_cells<Rank>())[ib] | post;
@@ -241,6 +241,10 @@ auto mara::get_cell_block(const arithmetic_binary_tree_t<ValueType, Rank>& tree,
 
         // If the target index is not a leaf, then combine the data from its
         // children, and then coarsen it.
+        if (! tree.contains_node(index))
+        {
+            throw std::out_of_range("no node at the target index or its parent");
+        }
         return mara::combine_cells(index.child_indexes().map([tree] (auto i) { return get_cell_block(tree, i, nd::to_shared()); }))
              | mara::coarsen_cells<Rank>()
              | post;
@@ -273,7 +277,7 @@ auto mara::get_vertex_block(const arithmetic_binary_tree_t<ValueType, Rank>& tre
         // If the tree has a value at the node above the target index, then refine
         // the data on that node (yielding 2^Rank arrays) and select the array in
         // the index's orthant.
-        if (tree.contains(index.parent_index()))
+        if (index.level > 0 && tree.contains(index.parent_index()))
         {
             auto ib = mara::to_integral(index.relative_to_parent().orthant());
             return (tree.at(index.parent_index()) | mara::refine_verts<Rank>())[ib].shared();
@@ -281,6 +285,10 @@ auto mara::get_vertex_block(const arithmetic_binary_tree_t<ValueType, Rank>& tre
 
         // If the target index is not a leaf, then combine the data from its
         // children, and then coarsen it.
+        if (! tree.contains_node(index))
+        {
+            throw std::out_of_range("no node at the target index or its parent");
+        }
         return mara::combine_verts(index.child_indexes().map([tree] (auto i) { return get_vertex_block(tree, i); }))
              | mara::coarsen_verts<Rank>()
              | nd::to_shared();
-- 
2.43.0


From ee6f7319587a43a74cd75da59a88013822456e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:00 +0000
Subject: [PATCH 33/67] fix: trees of any rank can be read back (rank 2 was
 hard-coded)

---
 src/app_serialize_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_serialize_tree.hpp b/src/app_serialize_tree.hpp
index 6fb2f7c..23d0d06 100644
--- a/src/app_serialize_tree.hpp
+++ b/src/app_serialize_tree.hpp
@@ -138,7 +138,7 @@ void mara::read_tree(h5::Group&& group, arithmetic_binary_tree_t<ValueType, Rank
     for (auto dataset : group)
     {
         auto value = group.read<ValueType>(dataset);
-        tree = std::move(tree).insert(mara::read_tree_index<2>(dataset), value);
+        tree = std::move(tree).insert(mara::read_tree_index<Rank>(dataset), value);
     }
 }
 
-- 
2.43.0


From 2ac84e94a62cd633fc8d07e8309def941c01ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:21 +0000
Subject: [PATCH 34/67] fix: do not dereference empty extent vectors (scalar
 data spaces)

---
 src/core_hdf5.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index dcaf458..867c154 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -154,7 +154,7 @@ public:
     PropertyList& set_chunk(std::vector<hsize_t> dims)
     {
         auto hdims = std::vector<hsize_t>(dims.begin(), dims.end());
-        detail::check(H5Pset_chunk(id, int(hdims.size()), &hdims[0]));
+        detail::check(H5Pset_chunk(id, int(hdims.size()), hdims.data()));
         return *this;
     }
 
@@ -290,7 +290,7 @@ public:
     static Dataspace simple(Container dims)
     {
         auto hdims = std::vector<hsize_t>(dims.begin(), dims.end());
-        return detail::check(H5Screate_simple(int(hdims.size()), &hdims[0], nullptr));
+        return detail::check(H5Screate_simple(int(hdims.size()), hdims.data(), nullptr));
     }
 
     template<typename Container>
@@ -302,7 +302,7 @@ public:
         }
         auto hdims = std::vector<hsize_t>(dims.begin(), dims.end());
         auto max_hdims = std::vector<hsize_t>(max_dims.begin(), max_dims.end());
-        return detail::check(H5Screate_simple(int(hdims.size()), &hdims[0], &max_hdims[0]));
+        return detail::check(H5Screate_simple(int(hdims.size()), hdims.data(), max_hdims.data()));
     }
 
     template<typename... Args>
@@ -357,7 +357,7 @@ public:
     std::vector<std::size_t> extent() const
     {
         auto ext = std::vector<hsize_t>(rank());
-        detail::check(H5Sget_simple_extent_dims(id, &ext[0], nullptr));
+        detail::check(H5Sget_simple_extent_dims(id, ext.data(), nullptr));
         return std::vector<std::size_t>(ext.begin(), ext.end());
     }
 
@@ -370,7 +370,7 @@ public:
     {
         auto lower = std::vector<hsize_t>(rank());
         auto upper = std::vector<hsize_t>(rank());
-        detail::check(H5Sget_select_bounds(id, &lower[0], &upper[0]));
+        detail::check(H5Sget_select_bounds(id, lower.data(), upper.data()));
         return std::vector<std::size_t>(lower.begin(), lower.end());
     }
 
@@ -378,7 +378,7 @@ public:
     {
         auto lower = std::vector<hsize_t>(rank());
         auto upper = std::vector<hsize_t>(rank());
-        detail::check(H5Sget_select_bounds(id, &lower[0], &upper[0]));
+        detail::check(H5Sget_select_bounds(id, lower.data(), upper.data()));
         return std::vector<std::size_t>(upper.begin(), upper.end());
     }
 
@@ -743,7 +743,7 @@ public:
         {
             throw std::invalid_argument("new and old extents have different ranks");
         }
-        detail::check(H5Dset_extent(link.id, &hdims[0]));
+        detail::check(H5Dset_extent(link.id, hdims.data()));
         return *this;
     }
 
-- 
2.43.0


From 23062b80b4367e777207a60e5f3f493e54092ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:21 +0000
Subject: [PATCH 35/67] fix: a failed link lookup means the object is not there
 (read an uninitialised object type)

---
 src/core_hdf5.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 867c154..4031e03 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -557,11 +557,11 @@ private:
 
     bool contains(const std::string& name, Object object) const
     {
-        if (H5Lexists(id, name.data(), H5P_DEFAULT))
-        {
-            H5O_info_t info;
-            H5Oget_info_by_name(id, name.data(), &info, H5P_DEFAULT);
+        H5O_info_t info;
 
+        if (H5Lexists(id, name.data(), H5P_DEFAULT) > 0 &&
+            H5Oget_info_by_name(id, name.data(), &info, H5P_DEFAULT) >= 0)
+        {
             switch (object)
             {
                 case Object::file   : return false;
-- 
2.43.0


From 49c37c16911ee7aa1aae57c099ea1ba0401c15b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:21 +0000
Subject: [PATCH 36/67] fix: empty strings and options read back empty, not as
 a null character

---
 src/app_serialize.hpp | 4 ++++
 src/core_hdf5.hpp     | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app_serialize.hpp b/src/app_serialize.hpp
index a5ecfc8..c34c199 100644
--- a/src/app_serialize.hpp
+++ b/src/app_serialize.hpp
@@ -323,6 +323,10 @@ struct h5::hdf5_type_info<mara::config_parameter_t>
     }
     static auto finalize(mara::config_parameter_t&& value)
     {
+        if (auto string = std::get_if<std::string>(&value))
+        {
+            value = hdf5_type_info<std::string>::finalize(std::move(*string));
+        }
         return std::move(value);
     }
     static auto get_address(mara::config_parameter_t& value) -> void*
diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 4031e03..58421e1 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -478,7 +478,7 @@ struct h5::hdf5_type_info<std::string>
     static auto make_dataspace_for(const native_type&) { return Dataspace::scalar(); }
     static auto convert_to_writable(const native_type& value) { return value; }
     static auto prepare(const Datatype& type, const Dataspace&) { return native_type(type.size(), 0); }
-    static auto finalize(native_type&& value) { return std::move(value); }
+    static auto finalize(native_type&& value) { return value == native_type(1, 0) ? native_type() : std::move(value); } // empty strings are stored as a single null
     static auto get_address(native_type& value) { return value.data(); }
     static auto get_address(const native_type& value) { return value.data(); }
 };
-- 
2.43.0


From 8f4d2f1f0c33e7a5d5c9a7402b5d21fc544f18e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:48 +0000
Subject: [PATCH 37/67] fix: reading a sequence through a selection returns the
 selected elements (always threw)

---
 src/app_serialize.hpp | 2 +-
 src/core_hdf5.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app_serialize.hpp b/src/app_serialize.hpp
index c34c199..56cf0da 100644
--- a/src/app_serialize.hpp
+++ b/src/app_serialize.hpp
@@ -228,7 +228,7 @@ struct h5::hdf5_type_info<mara::linked_list_t<ValueType>>
 {
     using native_type = mara::linked_list_t<ValueType>;
     static auto convert_to_writable(const native_type& value) { return std::vector<ValueType>(value.begin(), value.end()); }
-    static auto prepare(const Datatype&, const Dataspace& space) { return std::vector<ValueType>(space.size()); }
+    static auto prepare(const Datatype&, const Dataspace& space) { return std::vector<ValueType>(space.selection_size()); }
     static auto finalize(std::vector<ValueType>&& value) { return native_type(value.begin(), value.end()); }
 };
 
diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 58421e1..923c39e 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -490,7 +490,7 @@ struct h5::hdf5_type_info<std::vector<ValueType>>
     static auto make_datatype_for(const native_type&) { return h5::make_datatype_for(ValueType()); }
     static auto make_dataspace_for(const native_type& value) { return Dataspace{value.size()}; }
     static auto convert_to_writable(const native_type& value) { return value; }
-    static auto prepare(const Datatype&, const Dataspace& space) { return native_type(space.size()); }
+    static auto prepare(const Datatype&, const Dataspace& space) { return native_type(space.selection_size()); }
     static auto finalize(native_type&& value) { return std::move(value); }
     static auto get_address(native_type& value) { return value.data(); }
     static auto get_address(const native_type& value) { return value.data(); }
-- 
2.43.0


From e6516bf42ddca7025e549533fef57efa082a9c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:09 +0000
Subject: [PATCH 38/67] fix: data types, data spaces and property lists closed
 explicitly are not closed again on destruction

---
 src/core_hdf5.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 923c39e..8a99623 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -148,6 +148,7 @@ public:
         if (id != -1)
         {
             H5Pclose(id);
+            id = -1;
         }
     }
 
@@ -225,6 +226,7 @@ public:
         if (id != -1)
         {
             H5Tclose(id);
+            id = -1;
         }
     }
 
@@ -341,6 +343,7 @@ public:
         if (id != -1)
         {
             detail::check(H5Sclose(id));
+            id = -1;
         }
     }
 
-- 
2.43.0


From c5356860d80ac36ad2fb74e5861f9d38a8079d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:09 +0000
Subject: [PATCH 39/67] fix: assigning a data type or data space to itself, or
 failing to, keeps it valid

---
 src/core_hdf5.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 8a99623..37866f8 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -232,8 +232,9 @@ public:
 
     Datatype& operator=(const Datatype& other)
     {
+        auto new_id = detail::check(H5Tcopy(other.id));
         close();
-        id = detail::check(H5Tcopy(other.id));
+        id = new_id;
         return *this;
     }
 
@@ -323,8 +324,9 @@ public:
 
     Dataspace& operator=(const Dataspace& other)
     {
+        auto new_id = detail::check(H5Scopy(other.id));
         close();
-        id = detail::check(H5Scopy(other.id));
+        id = new_id;
         return *this;
     }
 
-- 
2.43.0


From 13047ad55d210274587d12f0e918ec823885bdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:09 +0000
Subject: [PATCH 40/67] fix: move-assigning a file, group or data set closes
 the one it held (leaked open)

---
 src/core_hdf5.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 37866f8..8a79f2e 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -675,7 +675,11 @@ public:
     Dataset(const Dataset&) = delete;
     Dataset& operator=(Dataset&& other)
     {
-        link = std::move(other.link);
+        if (this != &other)
+        {
+            close();
+            link = std::move(other.link);
+        }
         return *this;
     }
     void close() { link.close(Object::dataset); }
@@ -913,7 +917,11 @@ public:
     Group(Group&& other) : Location(std::move(other.link)) {}
     Group& operator=(Group&& other)
     {
-        link = std::move(other.link);
+        if (this != &other)
+        {
+            close();
+            link = std::move(other.link);
+        }
         return *this;
     }
     void close() { link.close(Object::group); }
@@ -966,7 +974,11 @@ public:
 
     File& operator=(File&& other)
     {
-        link = std::move(other.link);
+        if (this != &other)
+        {
+            close();
+            link = std::move(other.link);
+        }
         return *this;
     }
 
-- 
2.43.0


From ca40835bcae76da524c99238b2955f5be1c2e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:16 +0000
Subject: [PATCH 41/67] fix: the relativistic recovery error states the
 temperature floor (was converted to a rational number)

---
 src/physics_srhd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_srhd.hpp b/src/physics_srhd.hpp
index 9f27119..abd26e7 100644
--- a/src/physics_srhd.hpp
+++ b/src/physics_srhd.hpp
@@ -440,7 +440,7 @@ mara::srhd::primitive_t mara::srhd::recover_primitive(
     if (P.gas_pressure() <= 0.0)
     {
         throw std::invalid_argument("mara::srhd::recover_primitive failure: "
-            "negative pressure p=" + std::to_string(P.gas_pressure()) + " U=" + mara::to_string(U) + " floor=" + mara::to_string(temperature_floor));
+            "negative pressure p=" + std::to_string(P.gas_pressure()) + " U=" + mara::to_string(U) + " floor=" + std::to_string(temperature_floor));
     }
     if (std::isnan(W0))
     {
-- 
2.43.0


From 169ff05ab3f48e192a611757318d1090704a3004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:38 +0000
Subject: [PATCH 42/67] fix: the Newtonian temperature floor applies to every
 temperature below it, as documented (only to negative ones)

---
 src/physics_euler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics_euler.hpp b/src/physics_euler.hpp
index 0eacbc1..7de1559 100644
--- a/src/physics_euler.hpp
+++ b/src/physics_euler.hpp
@@ -567,9 +567,9 @@ mara::euler::primitive_t mara::euler::recover_primitive(
     P[3] =  U[3].value / d;
     P[4] = (U[4].value - 0.5 * p_squared / d) * (gamma_law_index - 1.0);
 
-    if (P[4] < 0.0 && temperature_floor > 0.0)
+    if (temperature_floor > 0.0)
     {
-        P[4] = temperature_floor * d;
+        P[4] = std::max(P[4], temperature_floor * d);
     }
     return P;
 }
-- 
2.43.0


From d2e11570a61519c4b005e2d371d0a5ba775f83bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:04 +0000
Subject: [PATCH 43/67] fix: relativistic recovery converges relative to the
 state's own density and pressure (failed or lost accuracy away from unity)

---
 src/physics_srhd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_srhd.hpp b/src/physics_srhd.hpp
index abd26e7..f7343a6 100644
--- a/src/physics_srhd.hpp
+++ b/src/physics_srhd.hpp
@@ -405,7 +405,7 @@ mara::srhd::primitive_t mara::srhd::recover_primitive(
         auto g = v2 * cs2 - 1.0;
         p -= f / g;
 
-        if (std::fabs(f) < error_tolerance)
+        if (std::fabs(f) < error_tolerance * (d + std::fabs(p)))
         {
             W0 = W;
             solution_found = true;
-- 
2.43.0


From a4fb3aca4c2a89105332cc93c80bf736bce7beb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:26 +0000
Subject: [PATCH 44/67] fix: contact-resolving solver waves stay in order in
 strong collisions (crossed, giving a one-sided flux)

---
 src/physics_iso2d.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/physics_iso2d.hpp b/src/physics_iso2d.hpp
index bbdc5af..5094f5a 100644
--- a/src/physics_iso2d.hpp
+++ b/src/physics_iso2d.hpp
@@ -644,9 +644,11 @@ inline mara::iso2d::riemann_hllc_variables_t mara::iso2d::compute_hllc_variables
     auto ql = std::max(1.0, std::sqrt(pstar / press_l));
     auto qr = std::max(1.0, std::sqrt(pstar / press_r));
 
-    // Equation 10.68 for the wavespeeds
-    auto sl = ul - al * ql;
-    auto sr = ur + ar * qr;
+    // Equation 10.68 for the wavespeeds, bounded by the signal speeds of both
+    // states (Equation 10.48). The linear pressure estimate is too small for
+    // strong collisions, and the waves would otherwise cross.
+    auto sl = std::min(ul - al * ql, ur - ar);
+    auto sr = std::max(ur + ar * qr, ul + al);
 
     // Equation 10.70 for the contact speed
     auto den = sigma_l * (sl - ul) - sigma_r * (sr - ur);
-- 
2.43.0


From e13af7e0d59e0bcc85040ac5084e0e7bd2c231c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:40 +0000
Subject: [PATCH 45/67] fix: the mean anomaly is measured from the time of
 periapse (was measured from time zero)

---
 src/model_two_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index 035abc7..90c4ff5 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -486,7 +486,7 @@ double mara::mean_anomaly(const full_orbital_elements_t& params, double t)
         t += P;
     }
     auto omega = 2 * M_PI / P;
-    return omega * t;
+    return omega * (t - params.tau);
 }
 
 mara::full_orbital_elements_t mara::diff(const full_orbital_elements_t& a, const full_orbital_elements_t& b)
-- 
2.43.0


From a6f9e9d968ef1ff672ea2c7b7955e14e3d190d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:12 +0000
Subject: [PATCH 46/67] fix: Kepler's equation is solved within one orbit
 (never converged after many orbits)

---
 src/model_two_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index 90c4ff5..a4506d8 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -193,7 +193,7 @@ mara::two_body_state_t mara::compute_two_body_state(const orbital_elements_t& pa
 
     if (params.eccentricity > 0.0)
     {
-        auto M = omega * t; // mean anomoly
+        auto M = std::remainder(omega * t, 2 * M_PI); // mean anomoly
         auto anomoly_equation   = [e, M] (double E) { return E - e * std::sin(E) - M; };
         auto anomoly_derivative = [e]    (double E) { return 1 - e * std::cos(E); };
         double E = two_body::detail::solve_newton_rapheson(anomoly_equation, anomoly_derivative, M);
-- 
2.43.0


From 35668a2cc9ff3fd20a99c7911679cf731bb3822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:27 +0000
Subject: [PATCH 47/67] fix: orbital elements of nearly circular orbits
 describe the state they came from (wrong phase from round-off)

---
 src/model_two_body.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index a4506d8..a2f59b3 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -326,40 +326,40 @@ mara::full_orbital_elements_t mara::compute_orbital_elements(const two_body_stat
     double vy1 = c1.velocity_y - vy_cm;
     double vx2 = c2.velocity_x - vx_cm;
     double vy2 = c2.velocity_y - vy_cm;
-    double vf1 = -vx1 * y1 / r1 + vy1 * x1 / r1;
-    double vf2 = -vx2 * y2 / r2 + vy2 * x2 / r2;
     double v1 = std::sqrt(vx1 * vx1 + vy1 * vy1);
 
 
-    // energy and angular momentum
+    // energy
     double E1 = 0.5 * M1 * (vx1 * vx1 + vy1 * vy1);
     double E2 = 0.5 * M2 * (vx2 * vx2 + vy2 * vy2);
-    double L1 = M1 * r1 * vf1;
-    double L2 = M2 * r2 * vf2;
     double R = r1 + r2;
-    double L = L1 + L2;
     double E = E1 + E2 - M1 * M2 / R;
 
 
-    // Semi-major, semi-minor axes; eccentricity, apsides
+    // Semi-major axis of the orbit, and of the primary
     double a = -0.5 * M1 * M2 / E;
-    double b = std::sqrt(-0.5 * L * L / E * (M1 + M2) / (M1 * M2));
-    double e = std::sqrt(clamp(0.0, 1.0, 1.0 - b * b / a / a));
+    double a1 = a * q / (1.0 + q);
     double omega = std::sqrt(M / a / a / a);
 
 
-    // semi-major and semi-minor axes of the primary
-    double a1 = a * q / (1.0 + q);
-    double b1 = b * q / (1.0 + q);
+    // e cos(nu), e sin(nu), and the eccentricity: taken together, these are well
+    // conditioned for nearly circular orbits
+    double ec = 1.0 - r1 / a1;
+    double es = (vx1 * x1 + vy1 * y1) / (v1 * r1) * std::sqrt(clamp(0.0, 1.0, 1.0 - ec * ec));
+    double e = clamp(0.0, 1.0, std::sqrt(ec * ec + es * es));
+
+
+    // semi-minor axis of the primary
+    double b1 = a1 * std::sqrt(1.0 - e * e);
 
 
     // cos of nu and f: phase angle and true anomaly
-    double cn = e == 0.0 ? x1 / r1 : (1.0 - r1 / a1) / e;
+    double cn = e == 0.0 ? x1 / r1 : ec / e;
     double cf = a1 / r1 * (cn - e);
 
 
     // sin of nu and f
-    double sn = e == 0.0 ? y1 / r1 : (vx1 * x1 + vy1 * y1) / (e * v1 * r1) * std::sqrt(1.0 - e * e * cn * cn);
+    double sn = e == 0.0 ? y1 / r1 : es / e;
     double sf = (b1 / r1) * sn;
 
 
-- 
2.43.0


From aecfc17bd6fa545fc15fe0673f77a81bdded85ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:01 +0000
Subject: [PATCH 48/67] fix: differences of periapse angle and time are the
 nearest ones (at most one period was removed)

---
 src/model_two_body.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index a2f59b3..13acc63 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -493,15 +493,7 @@ mara::full_orbital_elements_t mara::diff(const full_orbital_elements_t& a, const
 {
     auto wrap = [] (auto delta, auto period)
     {
-        auto a = delta;
-        auto b = delta + period;
-        auto c = delta - period;
-
-        if (std::abs(a) < std::min(std::abs(b), std::abs(c)))
-            return a;
-        if (std::abs(b) < std::abs(c))
-            return b;
-        return c;
+        return std::remainder(delta, period);
     };
 
     return {
-- 
2.43.0


From 3bd02eed1838e3d261c0e45597d1ee2e7ccea531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:18 +0000
Subject: [PATCH 49/67] fix: Kepler's equation converges for every eccentricity
 below one (diverged to not-a-number near one)

---
 src/model_two_body.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index 13acc63..cc2688d 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -196,7 +196,10 @@ mara::two_body_state_t mara::compute_two_body_state(const orbital_elements_t& pa
         auto M = std::remainder(omega * t, 2 * M_PI); // mean anomoly
         auto anomoly_equation   = [e, M] (double E) { return E - e * std::sin(E) - M; };
         auto anomoly_derivative = [e]    (double E) { return 1 - e * std::cos(E); };
-        double E = two_body::detail::solve_newton_rapheson(anomoly_equation, anomoly_derivative, M);
+        // for large eccentricity, start on the far side of the root, from where
+        // the convergence is monotonic
+        auto guess = e < 0.8 ? M : std::copysign(std::min(std::abs(M) + e, M_PI), M);
+        double E = two_body::detail::solve_newton_rapheson(anomoly_equation, anomoly_derivative, guess);
 
         return make_result_from_E_and_a(E, a);
     }
-- 
2.43.0


From 2243b68ac17cabc9e0ec86f9cc7ab3adab96828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:40 +0000
Subject: [PATCH 50/67] fix: cubic roots are accurate when the linear term is
 small (lost to cancellation)

---
 src/math_polynomial.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/math_polynomial.hpp b/src/math_polynomial.hpp
index 856b9e4..8888536 100644
--- a/src/math_polynomial.hpp
+++ b/src/math_polynomial.hpp
@@ -79,10 +79,10 @@ mara::cubic_roots_t mara::cubic_roots(double c3, double c2, double c1, double c0
 
     if (delta > 0.0)
     {
-        double s1 = r + std::sqrt(delta);
-        double s2 = r - std::sqrt(delta);
-        s1 = (s1 >= 0.0) ? std::pow(s1, 1. / 3) : -std::pow(-s1, 1. / 3);
-        s2 = (s2 >= 0.0) ? std::pow(s2, 1. / 3) : -std::pow(-s2, 1. / 3);
+        // The larger of the two cube roots is formed without cancellation, and
+        // the smaller one follows from s1 * s2 = -q.
+        auto s1 = std::cbrt(r + std::copysign(std::sqrt(delta), r));
+        auto s2 = -q / s1;
         result.x1 = (s1 + s2) - a2 / 3.0;
         result.x2 = -0.5 * (s1 + s2) - a2 / 3.0;
         result.x3 = -0.5 * (s1 + s2) - a2 / 3.0;
@@ -90,7 +90,7 @@ mara::cubic_roots_t mara::cubic_roots(double c3, double c2, double c1, double c0
     }
     else if (delta < 0.0)
     {
-        auto theta = std::acos(r / std::sqrt(-q * q * q)) / 3.0;
+        auto theta = std::acos(std::max(-1.0, std::min(1.0, r / std::sqrt(-q * q * q)))) / 3.0;
         auto costh = std::cos(theta);
         auto sinth = std::sin(theta);
         auto sq = std::sqrt(-q);
-- 
2.43.0


From 27fb183207b92705d29fb556bf48fc15ba75f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:07 +0000
Subject: [PATCH 51/67] fix: quartic roots are right when they are symmetric
 (wrong or missed when Ferrari's R vanishes)

---
 src/math_polynomial.hpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/math_polynomial.hpp b/src/math_polynomial.hpp
index 8888536..ea709e3 100644
--- a/src/math_polynomial.hpp
+++ b/src/math_polynomial.hpp
@@ -138,26 +138,33 @@ mara::quartic_roots_t mara::quartic_roots(double d4, double d3, double d2, doubl
     auto cubic = cubic_roots(1.0, au2, au1, au0);
     auto u1 = cubic.num_roots == 1 ? cubic.x1 : std::max(cubic.x1, cubic.x3);
     auto R2 = 0.25 * a3 * a3 + u1 - a2;
-    auto R = (R2 > 0.0) ? std::sqrt(R2) : 0.0;
+    auto T2 = 0.25 * u1 * u1 - a0;
 
-    double D2, E2;
-    auto result = quartic_roots_t();
+    // The quartic is (x^2 + a3 x / 2 + u1 / 2)^2 - (R x + T)^2. Either of R and
+    // T gives the other one, so the square root is taken of whichever is larger
+    // on the scale of the roots (R vanishes if the roots are even about -a3 / 4).
+    auto scale = std::max({std::abs(a3), std::sqrt(std::abs(a2)), std::cbrt(std::abs(a1)), std::sqrt(std::sqrt(std::abs(a0)))});
+    auto RT = 0.25 * a3 * u1 - 0.5 * a1;
+    auto R = 0.0;
+    auto T = 0.0;
 
-    if (R != 0.0)
+    if (R2 > 0.0 && R2 * scale * scale >= T2)
     {
-        auto f = 0.75 * a3 * a3 - R2 - 2.0 * a2;
-        auto g = 0.25 * (4.0 * a3 * a2 - 8.0 * a1 - a3 * a3 * a3) / R;
-        D2 = f + g;
-        E2 = f - g;
+        R = std::sqrt(R2);
+        T = RT / R;
     }
-    else
+    else if (T2 > 0.0)
     {
-        auto f = 0.75 * a3 * a3 - 2.0 * a2;
-        auto g = 2.00 * std::sqrt(u1 * u1 - 4.0 * a0);
-        D2 = f + g;
-        E2 = f - g;
+        T = std::sqrt(T2);
+        R = RT / T;
     }
 
+    auto f = 0.75 * a3 * a3 - R * R - 2.0 * a2;
+    auto g = 4.0 * T - a3 * R;
+    auto D2 = f + g;
+    auto E2 = f - g;
+    auto result = quartic_roots_t();
+
     if (D2 >= 0.0)
     {
         auto D = std::sqrt(D2);
@@ -182,7 +189,7 @@ mara::quartic_roots_t mara::quartic_roots(double d4, double d3, double d2, doubl
     else
     {
         result.x3 = -0.25 * a3 - 0.5 * R;
-        result.x4 = -0.25 * a3 + 0.5 * R;
+        result.x4 = -0.25 * a3 - 0.5 * R;
         result.pair_2_is_real = false;
     }
     return result;
-- 
2.43.0


From 3196a87860a05940c8336267edc67480252b2b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:09 +0000
Subject: [PATCH 52/67] fix: requesting the total mass of an atmosphere yields
 that mass (ignored the coefficient it had)

---
 src/model_atmosphere.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model_atmosphere.hpp b/src/model_atmosphere.hpp
index 1979f2f..cfa7093 100644
--- a/src/model_atmosphere.hpp
+++ b/src/model_atmosphere.hpp
@@ -97,7 +97,7 @@ struct mara::power_law_atmosphere_model
     power_law_atmosphere_model with_outer_index  (double new_n2) const { return {f0, r0, rc, n1, new_n2}; }
     power_law_atmosphere_model with_total_mass(double new_total_mass) const
     {
-        return with_coefficient(new_total_mass / total_mass());
+        return with_coefficient(f0 * new_total_mass / total_mass());
     }
 
     double mass_within_cutoff() const
-- 
2.43.0


From 1c100649a1bcb033763df80fe85dc81999e49049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:27 +0000
Subject: [PATCH 53/67] fix: short non-blocking messages keep their buffer in
 place until they are complete (it moved with the request)

---
 src/core_mpi.hpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index 8e85c13..1b4ab26 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -26,6 +26,7 @@
 
 
 
+#include <memory>
 #include <string>
 #include <numeric>
 #include <vector>
@@ -130,7 +131,7 @@ public:
      */
     Request(Request&& other)
     {
-        buffer = std::move(other.buffer);
+        std::swap(buffer, other.buffer);
         request = other.request;
         other.request = MPI_REQUEST_NULL;
     }
@@ -160,7 +161,7 @@ public:
     Request& operator=(Request&& other)
     {
         cancel();
-        buffer = std::move(other.buffer);
+        std::swap(buffer, other.buffer);
         request = other.request;
         other.request = MPI_REQUEST_NULL;
         return *this;        
@@ -233,7 +234,7 @@ public:
     {
         wait();
         // MPI_Wait(&request, MPI_STATUS_IGNORE);
-        return buffer;
+        return *buffer;
     }
 
 
@@ -245,7 +246,7 @@ public:
     {
         static_assert(std::is_trivially_copyable<T>::value, "type is not trivially copyable");
 
-        if (buffer.size() != sizeof(T))
+        if (buffer->size() != sizeof(T))
         {
             throw std::logic_error("received message has wrong size for data type");   
         }
@@ -255,7 +256,7 @@ public:
         // MPI_Wait(&request, MPI_STATUS_IGNORE);
 
         auto value = T();
-        std::memcpy(&value, &buffer[0], sizeof(T));
+        std::memcpy(&value, &(*buffer)[0], sizeof(T));
         return value;
     }
 
@@ -264,7 +265,10 @@ private:
     // ========================================================================
     friend class Communicator;
     MPI_Request request = MPI_REQUEST_NULL;
-    std::string buffer;
+
+    // The message content stays at a fixed address while the operation is in
+    // progress, also if this request is moved.
+    std::shared_ptr<std::string> buffer = std::make_shared<std::string>();
 };
 
 
@@ -555,14 +559,10 @@ public:
         {
             return Request();
         }
-        auto buf = std::string(status.count(), 0);
-
-        MPI_Request request;
-        MPI_Irecv(&buf[0], buf.size(), MPI_CHAR, source, tag, comm, &request);
 
         Request res;
-        res.buffer = std::move(buf);
-        res.request = request;
+        res.buffer->resize(status.count());
+        MPI_Irecv(&(*res.buffer)[0], res.buffer->size(), MPI_CHAR, source, tag, comm, &res.request);
         return res;
     }
 
@@ -593,12 +593,9 @@ public:
      */
     Request isend(std::string buf, int rank, int tag=0) const
     {
-        MPI_Request request;
-        MPI_Isend(&buf[0], buf.size(), MPI_CHAR, rank, tag, comm, &request);
-
         Request res;
-        res.buffer = std::move(buf);
-        res.request = request;
+        *res.buffer = std::move(buf);
+        MPI_Isend(&(*res.buffer)[0], res.buffer->size(), MPI_CHAR, rank, tag, comm, &res.request);
         return res;
     }
 
-- 
2.43.0


From 8d42734a19331cbb482257861c31d8e57c95eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:55 +0000
Subject: [PATCH 54/67] fix: wildcard receives take the message whose size was
 probed (could match another one)

---
 src/core_mpi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index 1b4ab26..fa85702 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -539,7 +539,7 @@ public:
         auto status = probe(source, tag);
         auto buf = std::string(status.count(), 0);
 
-        MPI_Recv(&buf[0], buf.size(), MPI_CHAR, source, tag, comm, MPI_STATUS_IGNORE);
+        MPI_Recv(&buf[0], buf.size(), MPI_CHAR, status.source(), status.tag(), comm, MPI_STATUS_IGNORE);
         return buf;
     }
 
@@ -562,7 +562,7 @@ public:
 
         Request res;
         res.buffer->resize(status.count());
-        MPI_Irecv(&(*res.buffer)[0], res.buffer->size(), MPI_CHAR, source, tag, comm, &res.request);
+        MPI_Irecv(&(*res.buffer)[0], res.buffer->size(), MPI_CHAR, status.source(), status.tag(), comm, &res.request);
         return res;
     }
 
-- 
2.43.0


From 6583d718bb7f603d675379c48910893aad4a7570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:21 +0000
Subject: [PATCH 55/67] fix: assigning a communicator to itself keeps it open
 (closed it)

---
 src/core_mpi.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index fa85702..bcc6e09 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -410,6 +410,10 @@ public:
      */
     Communicator& operator=(const Communicator& other)
     {
+        if (this == &other)
+        {
+            return *this;
+        }
         close();
 
         if (! other.is_null())
-- 
2.43.0


From 2e55fca3f88bd6669247ed7da1bcb99c7ef35f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 56/67] fix: dropping a request waits until it no longer uses
 its buffer (a dropped receive wrote into freed memory)

---
 src/core_mpi.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index bcc6e09..3a49def 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -176,7 +176,10 @@ public:
         if (! is_null())
         {
             MPI_Cancel(&request);
-            MPI_Request_free(&request);
+
+            // The operation may already be in progress, and it uses the buffer
+            // until it is complete (the request is then also deallocated).
+            MPI_Wait(&request, MPI_STATUS_IGNORE);
         }
     }
 
-- 
2.43.0


From 7a94f773eed982cc726aa251b11776d68d3513df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:28 +0000
Subject: [PATCH 57/67] fix: collective operations accept empty vectors (took
 the address of their first element)

---
 src/core_mpi.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index 3a49def..6c91f1a 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -685,7 +685,7 @@ public:
         auto value = T();
 
         MPI_Scatter(
-            &values[0], sizeof(T), MPI_CHAR,
+            values.data(), sizeof(T), MPI_CHAR,
             &value, sizeof(T), MPI_CHAR, root, comm);
 
         return value;
@@ -724,8 +724,8 @@ public:
             auto recvbuf   = std::vector<T>(recvcount / sizeof(T));
 
             MPI_Scatterv(
-                &sendbuf[0], &sendcounts[0], &senddispls[0], MPI_CHAR,
-                &recvbuf[0], recvcount, MPI_CHAR, root, comm);
+                sendbuf.data(), sendcounts.data(), senddispls.data(), MPI_CHAR,
+                recvbuf.data(), recvcount, MPI_CHAR, root, comm);
 
             return recvbuf;
         }
@@ -736,7 +736,7 @@ public:
 
             MPI_Scatterv(
                 nullptr, nullptr, nullptr, MPI_CHAR,
-                &recvbuf[0], recvcount, MPI_CHAR, root, comm);
+                recvbuf.data(), recvcount, MPI_CHAR, root, comm);
 
             return recvbuf;
         }
@@ -761,8 +761,8 @@ public:
         auto recvbuf = std::vector<T>(sendbuf.size(), T());
 
         MPI_Alltoall(
-            &sendbuf[0], sendbuf.size() / size() * sizeof(T), MPI_CHAR,
-            &recvbuf[0], recvbuf.size() / size() * sizeof(T), MPI_CHAR, comm);
+            sendbuf.data(), sendbuf.size() / size() * sizeof(T), MPI_CHAR,
+            recvbuf.data(), recvbuf.size() / size() * sizeof(T), MPI_CHAR, comm);
 
         return recvbuf;
     }
@@ -779,7 +779,7 @@ public:
         static_assert(std::is_trivially_copyable<T>::value, "type is not trivially copyable");
 
         auto recvbuf = std::vector<T>(size(), T());
-        MPI_Allgather(&value, sizeof(T), MPI_CHAR, &recvbuf[0], sizeof(T), MPI_CHAR, comm);
+        MPI_Allgather(&value, sizeof(T), MPI_CHAR, recvbuf.data(), sizeof(T), MPI_CHAR, comm);
         return recvbuf;
     }
 
@@ -803,8 +803,8 @@ public:
         auto recvbuf = std::vector<T>(recvdispls.back() / sizeof(T));
 
         MPI_Allgatherv(
-            &sendbuf[0], sendbuf.size() * sizeof(T), MPI_CHAR,
-            &recvbuf[0], &recvcounts[0], &recvdispls[0], MPI_CHAR, comm);
+            sendbuf.data(), sendbuf.size() * sizeof(T), MPI_CHAR,
+            recvbuf.data(), recvcounts.data(), recvdispls.data(), MPI_CHAR, comm);
 
         auto res = std::vector<std::vector<T>>(size());
         auto recv = recvbuf.begin();
-- 
2.43.0


From 26bfe8ddebacb7b4cd04ecbc7bd35c461dc8f753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 58/67] fix: the disk solver honours reconstruct_method=pcm (it
 was ignored)

---
 src/subprog_binary_scheme.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index 263af0f..f960248 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -278,8 +278,9 @@ static auto intercell_flux_u(
         auto [pl, pr] = p0;
         auto [gl, gr] = g_long;
 
-        auto pl_hat = pl + gl * 0.5 * grid_spacing;
-        auto pr_hat = pr - gr * 0.5 * grid_spacing;
+        auto extrapolate = solver_data.reconstruct_method == binary::reconstruct_method_t::plm ? 0.5 : 0.0;
+        auto pl_hat = pl + gl * extrapolate * grid_spacing;
+        auto pr_hat = pr - gr * extrapolate * grid_spacing;
         auto cs2 = cs2_at_position(xf, binary, solver_data);
         auto nu = nu_at_position(xf, cs2, solver_data);
         auto mu = 0.5 * nu * (pl_hat.sigma() + pr_hat.sigma());
@@ -306,8 +307,9 @@ static auto intercell_flux_q(
         auto [pl, pr] = p0;
         auto [gl, gr] = g_long;
 
-        auto pl_hat = pl + gl * 0.5 * grid_spacing;
-        auto pr_hat = pr - gr * 0.5 * grid_spacing;
+        auto extrapolate = solver_data.reconstruct_method == binary::reconstruct_method_t::plm ? 0.5 : 0.0;
+        auto pl_hat = pl + gl * extrapolate * grid_spacing;
+        auto pr_hat = pr - gr * extrapolate * grid_spacing;
         auto cs2 = cs2_at_position(xf, binary, solver_data);
         auto nu = nu_at_position(xf, cs2, solver_data);
         auto mu = 0.5 * nu * (pl_hat.sigma() + pr_hat.sigma());
-- 
2.43.0


From 95ccfec14bb79b2e864c853b55780c836e270bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 59/67] fix: begin_live_binary is a time in orbits, as
 documented (was compared with the time in code units)

---
 src/subprog_binary_solver_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_binary_solver_data.cpp b/src/subprog_binary_solver_data.cpp
index 768fe43..ca4bf0c 100644
--- a/src/subprog_binary_solver_data.cpp
+++ b/src/subprog_binary_solver_data.cpp
@@ -90,7 +90,7 @@ binary::solver_data_t binary::create_solver_data(const mara::config_t& run_confi
     result.softening_radius      = run_config.get_double("softening_radius");
     result.gst_suppr_radius      = run_config.get_double("source_term_softening") * std::min(min_dx, min_dy).value;
     result.plm_theta             = run_config.get_double("plm_theta");
-    result.begin_live_binary     = run_config.get_double("begin_live_binary");
+    result.begin_live_binary     = run_config.get_double("begin_live_binary") * 2 * M_PI;
     result.axisymmetric_cs2      = run_config.get_int("axisymmetric_cs2");
     result.conserve_linear_p     = run_config.get_int("conserve_linear_p");
     result.fixed_dt              = run_config.get_int("fixed_dt");
-- 
2.43.0


From dc67859d8f5a32123a1fd38a7661bfebbed7bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:43 +0000
Subject: [PATCH 60/67] fix: sedov: limit the Newtonian time step by the
 fastest signal

The step was chosen for signals no faster than the speed of light, also with
newtonian=1, where hot or light explosions exceed it: the scheme then became
unstable and filled the solution with not-a-numbers.
---
 src/subprog_sedov.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index a39da4b..f8c94d8 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -93,6 +93,17 @@ static auto negate_radial_velocity(const mara::euler::primitive_t& p)
     return p.with_velocity_1(-p.velocity_1());
 }
 
+static double fastest_signal_speed(const mara::srhd::primitive_t& p)
+{
+    return 1.0;
+}
+
+static double fastest_signal_speed(const mara::euler::primitive_t& p)
+{
+    auto a = p.wavespeeds(mara::unit_vector_t::on_axis_1(), gamma_law_index);
+    return std::max(1.0, std::max(std::fabs(a.m.value), std::fabs(a.p.value)));
+}
+
 static double solve_for_shock_velocity(const mara::srhd::primitive_t& p1, const mara::srhd::primitive_t& p2)
 {
     auto d1 = p1.mass_density();
@@ -406,13 +417,13 @@ auto SedovProblem<HydroSystem>::next_solution(const solution_state_t& state)
     auto extend_bc = mara::compose(extend_reflecting_inner(), extend_zero_gradient_outer());
 
     auto dr_min = state.vertices | nd::difference_on_axis(0) | nd::read_index(0);
-    auto dt = mara::make_time(cfl_number * dr_min);
     auto dv = cell_volumes(state.vertices) | evaluate;
     auto da = face_areas(state.vertices);
     auto rc = state.vertices | nd::midpoint_on_axis(0);
 
     auto u0 = state.conserved;
     auto p0 = u0 / dv | nd::map(cons_to_prim) | evaluate;
+    auto dt = mara::make_time(cfl_number * dr_min / (p0 | nd::map([] (auto p) { return fastest_signal_speed(p); }) | nd::max()));
     auto s0 = nd::zip(p0, rc) | nd::apply(source_terms) | nd::multiply(dv);
     auto l0 = p0 | extend_bc | intercell_flux(0) | nd::multiply(-da) | nd::difference_on_axis(0);
     auto u1 = u0 + (l0 + s0) * dt;
-- 
2.43.0


From 1deb8cf7a3fcc3dc1e0b4048f3cd1cfd16d4a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:43 +0000
Subject: [PATCH 61/67] fix: find_shock_index: report entropies that cannot be
 compared

With a not-a-number in the profile no index matches the minimum, and the
first element of an empty array was read.
---
 src/post_shock_locator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/post_shock_locator.hpp b/src/post_shock_locator.hpp
index 4154b88..207e733 100644
--- a/src/post_shock_locator.hpp
+++ b/src/post_shock_locator.hpp
@@ -75,7 +75,7 @@ auto mara::find_shock_index(PrimitiveArray1d primitive, double gamma_law_index)
 
     auto s0 = primitive | nd::map([gamma_law_index] (auto p) { return p.specific_entropy(gamma_law_index); });
     auto ds = s0 | nd::difference_on_axis(0);
-    auto shock_index = nd::where(ds == nd::min(ds)) | nd::read_index(0);
+    auto shock_index = nd::where(ds == nd::min(ds)) | nd::bounds_check() | nd::read_index(0);
     return shock_index;
 }
 
-- 
2.43.0


From 73e45fcd758158faa1449581fc151b59941a31c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:43 +0000
Subject: [PATCH 62/67] fix: exit with failure when the sub-program does not
 exist

---
 src/app_main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_main.cpp b/src/app_main.cpp
index e27f866..9106c49 100644
--- a/src/app_main.cpp
+++ b/src/app_main.cpp
@@ -91,5 +91,5 @@ int main(int argc, const char* argv[])
     }
 
     std::cout << "invalid sub-program '" << argv[1] << "'\n";
-    return 0;
+    return 1;
 }
-- 
2.43.0


From 3ce42024adfe2a3f63f1516d6c4aeefc9d4c0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:36 +0000
Subject: [PATCH 63/67] fix: names of HDF5 members and files that just fill the
 buffer are refused, not truncated

---
 src/core_hdf5.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 8a79f2e..f66820a 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -627,9 +627,9 @@ private:
             static char name[1024];
 
             if (H5Lget_name_by_idx(id, ".",
-                H5_INDEX_NAME, H5_ITER_NATIVE, idx, name, 1024, H5P_DEFAULT) > 1024)
+                H5_INDEX_NAME, H5_ITER_NATIVE, idx, name, 1024, H5P_DEFAULT) >= 1024)
             {
-                throw std::overflow_error("object names longer than 1024 are not supported");
+                throw std::overflow_error("object names longer than 1023 are not supported");
             }
             return name;
         }
@@ -997,7 +997,7 @@ public:
     {
         char result[2048];
 
-        if (H5Fget_name(link.id, result, 2048) > 2048)
+        if (H5Fget_name(link.id, result, 2048) >= 2048)
         {
             throw std::invalid_argument("the HDF5 filename is too long");
         }
-- 
2.43.0


From c5622c7473f1e65d7c3033265ca6bc7d3f42df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 64/67] fix: restart suite runs from the checkpoint with the
 highest number (also past 9999)

---
 tools/run_suite.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/run_suite.py b/tools/run_suite.py
index 3cce74b..727ab1b 100755
--- a/tools/run_suite.py
+++ b/tools/run_suite.py
@@ -58,8 +58,15 @@ def load_machine(machine_file):
 
 
 
+def checkpoint_number(filename):
+    parts = filename.split('.')
+    return int(parts[1]) if len(parts) > 1 and parts[1].isdigit() else -1
+
+
+
 def latest_checkpoint(directory):
-    return os.path.join(directory, sorted([item for item in os.listdir(directory) if item.startswith('chkpt')])[-1])
+    chkpts = [item for item in os.listdir(directory) if item.startswith('chkpt')]
+    return os.path.join(directory, sorted(chkpts, key=lambda item: (checkpoint_number(item), item))[-1])
 
 
 
-- 
2.43.0


From 30a2d60bd3d05ba4aaa6d85a7c19a3659b1c8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 65/67] fix: copy the file with the highest number (also past
 9999)

---
 tools/copy_latest.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/copy_latest.py b/tools/copy_latest.py
index eddaf36..6c05eca 100755
--- a/tools/copy_latest.py
+++ b/tools/copy_latest.py
@@ -10,6 +10,13 @@ import shutil
 
 
 
+def file_order(filename):
+    parts = filename.split('.')
+    return int(parts[1]) if len(parts) > 1 and parts[1].isdigit() else -1, filename
+
+
+
+
 if __name__ == "__main__":
     parser = argparse.ArgumentParser()
     parser.add_argument('directories', nargs='+')
@@ -25,7 +32,7 @@ if __name__ == "__main__":
     for directory in args.directories:
         if os.path.isdir(directory):
 
-            chkpts = sorted([item for item in os.listdir(directory) if item.startswith(args.prefix)])
+            chkpts = sorted([item for item in os.listdir(directory) if item.startswith(args.prefix)], key=file_order)
 
             if chkpts:
                 old_name = chkpts[-1] if not args.count else chkpts[args.count]
-- 
2.43.0


From f3b83a8234e372f896cd4568d5aaca888d5af899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 66/67] fix: copy the first file when asked for the one at
 position 0

---
 tools/copy_latest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/copy_latest.py b/tools/copy_latest.py
index 6c05eca..ab6d4d7 100755
--- a/tools/copy_latest.py
+++ b/tools/copy_latest.py
@@ -35,7 +35,7 @@ if __name__ == "__main__":
             chkpts = sorted([item for item in os.listdir(directory) if item.startswith(args.prefix)], key=file_order)
 
             if chkpts:
-                old_name = chkpts[-1] if not args.count else chkpts[args.count]
+                old_name = chkpts[-1] if args.count is None else chkpts[args.count]
                 new_name = old_name.replace(args.prefix, os.path.split(os.path.normpath(directory))[-1] + out_prefix)
 
                 src = os.path.join(directory, old_name)
-- 
2.43.0


From 07ee2411b1aaa1c012ecf64987b432af80a0a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 67/67] fix: powers of quantities with negative dimensions get
 the right dimensions

---
 src/core_dimensional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_dimensional.hpp b/src/core_dimensional.hpp
index 9840923..3e82f35 100644
--- a/src/core_dimensional.hpp
+++ b/src/core_dimensional.hpp
@@ -221,7 +221,7 @@ struct mara::dimensional_value_t
      * @note       Since non-integer dimensions are not supported, all units
      *             must divide the exponent, if it is negative.
      */
-    template<int N, unsigned D=1>
+    template<int N, int D=1>
     auto pow() const
     {
         static_assert((C * N) % D == 0, "non-integer dimensions not supported");
-- 
2.43.0


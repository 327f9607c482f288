From f0ae9c90ddce761ed75d920c5f9eabca58dc6be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 01/17] fix: do not keep a reference to the points of a
 finished operation in thread-local storage (Corefine)

---
 include/kigumi/Corefine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kigumi/Corefine.h b/include/kigumi/Corefine.h
index cceb1bf..ac6e474 100644
--- a/include/kigumi/Corefine.h
+++ b/include/kigumi/Corefine.h
@@ -64,7 +64,7 @@ class Corefine {
     parallel_do(
         pairs.begin(), pairs.end(), std::pair<std::vector<Intersection_info>, std::size_t>{},
         [&](const auto& pair, auto& local_state) {
-          thread_local Face_face_intersection face_face_intersection{points_};
+          Face_face_intersection face_face_intersection{points_};
 
           auto [left_fi, right_fi] = pair;
           const auto& left_face = left_.face(left_fi);
-- 
2.43.0


From 53d86d210edfcc2f72f971c7ea7b23fd1626783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 02/17] fix: do not keep a reference to the points of a
 finished search in thread-local storage (Find_defects)

---
 include/kigumi/Find_defects.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kigumi/Find_defects.h b/include/kigumi/Find_defects.h
index a318df7..8bc6787 100644
--- a/include/kigumi/Find_defects.h
+++ b/include/kigumi/Find_defects.h
@@ -302,7 +302,7 @@ class Find_defects {
     parallel_do(
         m.faces_begin(), m.faces_end(), std::vector<Face_index>{},
         [&](auto fi, auto& local_fis) {
-          thread_local Face_face_intersection face_face_intersection{points};
+          Face_face_intersection face_face_intersection{points};
           thread_local std::vector<const Leaf*> leaves;
           thread_local std::vector<Vertex_index> shared_vertices;
 
-- 
2.43.0


From d58f4f502fc34c9a142aeb40853a3035f4304697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 03/17] fix: data race on exception_ptr in parallel_do

---
 include/kigumi/parallel_do.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index 149bb29..9c4b8f8 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -33,6 +33,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
   std::atomic<std::size_t> next_index{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
+  std::atomic<bool> has_exception{};
 
   threads.reserve(num_threads);
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
@@ -48,7 +49,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
 
           body(*(first + index), local_state);
 
-          if (exception_ptr) {
+          if (has_exception) {
             return;
           }
         }
@@ -59,6 +60,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
         std::lock_guard lock{mutex};
         if (!exception_ptr) {
           exception_ptr = std::current_exception();
+          has_exception = true;
         }
       }
     });
@@ -93,6 +95,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
   std::atomic<std::size_t> next_index{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
+  std::atomic<bool> has_exception{};
 
   threads.reserve(num_threads);
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
@@ -106,7 +109,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
 
           body(*(first + index));
 
-          if (exception_ptr) {
+          if (has_exception) {
             return;
           }
         }
@@ -114,6 +117,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
         std::lock_guard lock{mutex};
         if (!exception_ptr) {
           exception_ptr = std::current_exception();
+          has_exception = true;
         }
       }
     });
-- 
2.43.0


From eef7076eeebf81add8851fa1aae5c3e46023722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 04/17] fix: honor the limit on the number of threads in the
 stateless parallel_do

---
 include/kigumi/parallel_do.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index 9c4b8f8..3462de6 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -82,8 +82,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
     return;
   }
 
-  auto num_threads = std::clamp(static_cast<std::size_t>(std::thread::hardware_concurrency()),
-                                std::size_t{1}, size);
+  auto num_threads = std::min(Threading_context::current().num_threads(), size);
   if (num_threads == 1) {
     for (auto it = first; it != last; ++it) {
       body(*it);
-- 
2.43.0


From 039a99340c71fbd6b5343ef3fde9fcbc33536d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 05/17] fix: let worker threads inherit the threading options
 of the caller

---
 include/kigumi/parallel_do.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index 3462de6..7650785 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -35,9 +35,12 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
   std::exception_ptr exception_ptr;
   std::atomic<bool> has_exception{};
 
+  auto threading_options = Threading_context::current();
+
   threads.reserve(num_threads);
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
     threads.emplace_back([&] {
+      Threading_context context{threading_options};
       auto local_state = state;
 
       try {
@@ -96,9 +99,13 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
   std::exception_ptr exception_ptr;
   std::atomic<bool> has_exception{};
 
+  auto threading_options = Threading_context::current();
+
   threads.reserve(num_threads);
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
     threads.emplace_back([&] {
+      Threading_context context{threading_options};
+
       try {
         while (true) {
           auto index = next_index++;
-- 
2.43.0


From 93bc627b4f0b8197385c69ab52801e5ec7838726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 06/17] fix: report failures of writing buffered data (flush
 before checking the stream)

---
 include/kigumi/Region_io.h | 1 +
 include/kigumi/io/obj.h    | 1 +
 include/kigumi/io/off.h    | 1 +
 include/kigumi/io/ply.h    | 1 +
 4 files changed, 4 insertions(+)

diff --git a/include/kigumi/Region_io.h b/include/kigumi/Region_io.h
index 3802d9d..eedc26b 100644
--- a/include/kigumi/Region_io.h
+++ b/include/kigumi/Region_io.h
@@ -34,6 +34,7 @@ bool write_kigumi_region(std::ostream& os, const Region<K, FaceData>& region) {
     return false;
   }
   kigumi_write<Region<K, FaceData>>(os, region);
+  os.flush();
   return os.good();
 }
 
diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 5b23abb..3f95ab8 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -130,6 +130,7 @@ bool write_obj(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  os.flush();
   return os.good();
 }
 
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 12525a0..d238cc9 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -210,6 +210,7 @@ bool write_off(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     os << "3 " << f[0].idx() << ' ' << f[1].idx() << ' ' << f[2].idx() << '\n';
   }
 
+  os.flush();
   return os.good();
 }
 
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index f10563c..84d0f3a 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -321,6 +321,7 @@ bool write_ply(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     os << "3 " << f[0].idx() << ' ' << f[1].idx() << ' ' << f[2].idx() << '\n';
   }
 
+  os.flush();
   return os.good();
 }
 
-- 
2.43.0


From 66e2d05d426983caca65123dbf1ccd4c1f715cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 07/17] fix: discard the cached AABB tree when a face is added
 to a triangle soup

---
 include/kigumi/Triangle_soup.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index b07007f..7ca2c0a 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -84,6 +84,7 @@ class Triangle_soup {
   Face_index add_face(const Face& face) {
     faces_.push_back(face);
     face_data_.emplace_back();
+    aabb_tree_.reset();
     return Face_index{faces_.size() - 1};
   }
 
-- 
2.43.0


From 87c930a8ce788982ac2d8b623171d9c969dc6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 08/17] fix: reject non-finite coordinates in mesh files

---
 include/kigumi/io/ascii.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/io/ascii.h b/include/kigumi/io/ascii.h
index 1482b3e..75774c5 100644
--- a/include/kigumi/io/ascii.h
+++ b/include/kigumi/io/ascii.h
@@ -4,6 +4,7 @@
 
 #include <array>
 #include <charconv>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <string>
@@ -24,7 +25,7 @@ inline std::istream& operator>>(std::istream& in, Double& d) {
   const auto* first = s.front() == '+' ? s.data() + 1 : s.data();
   const auto* last = s.data() + s.size();
   auto [ptr, ec] = fast_float::from_chars(first, last, d.value);
-  if (ptr != last || ec != std::errc{}) {
+  if (ptr != last || ec != std::errc{} || !std::isfinite(d.value)) {
     in.setstate(std::ios::failbit);
   }
 
-- 
2.43.0


From 7bb229357406949a795712f025984036eeba9a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 09/17] fix: reject truncated rational numbers instead of
 importing empty or zero integers

---
 include/kigumi/io.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/io.h b/include/kigumi/io.h
index 6d64381..587619b 100644
--- a/include/kigumi/io.h
+++ b/include/kigumi/io.h
@@ -116,12 +116,21 @@ struct Read<boost::multiprecision::cpp_rational> {
     kigumi_read<std::int32_t>(in, count);
     buf.resize(count);
     in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
-    import_bits(num, buf.begin(), buf.end());
+    if (!buf.empty()) {
+      import_bits(num, buf.begin(), buf.end());
+    }
 
     kigumi_read<std::int32_t>(in, count);
     buf.resize(count);
     in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
-    import_bits(den, buf.begin(), buf.end());
+    if (!buf.empty()) {
+      import_bits(den, buf.begin(), buf.end());
+    }
+
+    if (!in || den == 0) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
 
     t = boost::multiprecision::cpp_rational{std::move(num), std::move(den)};
     if (neg) {
@@ -179,6 +188,11 @@ struct Read<mpq_class> {
     in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
     mpz_import(den.get_mpz_t(), count, 1, 1, 0, 0, buf.data());
 
+    if (!in || den == 0) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
+
     t = mpq_class{std::move(num)} / mpq_class{std::move(den)};
     if (neg) {
       t = -std::move(t);
-- 
2.43.0


From 90463d3aa640377a31d2c99b11983ef25c9a5adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 10/17] fix: replace the content of the region being read
 instead of appending to it

---
 include/kigumi/Region.h        | 11 +++++++++--
 include/kigumi/Triangle_soup.h | 17 +++++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/kigumi/Region.h b/include/kigumi/Region.h
index 35b4640..c1a4393 100644
--- a/include/kigumi/Region.h
+++ b/include/kigumi/Region.h
@@ -108,8 +108,15 @@ struct Write<Region<K, FaceData>> {
 template <class K, class FaceData>
 struct Read<Region<K, FaceData>> {
   void operator()(std::istream& in, Region<K, FaceData>& t) const {
-    kigumi_read<Region_kind>(in, t.kind_);
-    kigumi_read<Triangle_soup<K, FaceData>>(in, t.boundary_);
+    Region_kind kind{};
+    Triangle_soup<K, FaceData> boundary;
+    kigumi_read<Region_kind>(in, kind);
+    kigumi_read<Triangle_soup<K, FaceData>>(in, boundary);
+
+    if (in) {
+      t.kind_ = kind;
+      t.boundary_ = std::move(boundary);
+    }
   }
 };
 
diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index 7ca2c0a..62b2adf 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -186,6 +186,7 @@ struct Write<Triangle_soup<K, FaceData>> {
 template <class K, class FaceData>
 struct Read<Triangle_soup<K, FaceData>> {
   void operator()(std::istream& in, Triangle_soup<K, FaceData>& t) const {
+    Triangle_soup<K, FaceData> new_t;
     std::size_t num_vertices{};
     std::size_t num_faces{};
     kigumi_read<std::int32_t>(in, num_vertices);
@@ -202,7 +203,7 @@ struct Read<Triangle_soup<K, FaceData>> {
         kigumi_read<double>(in, x);
         kigumi_read<double>(in, y);
         kigumi_read<double>(in, z);
-        t.add_vertex({x, y, z});
+        new_t.add_vertex({x, y, z});
       } else {
         CGAL::Exact_rational x;
         CGAL::Exact_rational y;
@@ -210,9 +211,9 @@ struct Read<Triangle_soup<K, FaceData>> {
         kigumi_read<CGAL::Exact_rational>(in, x);
         kigumi_read<CGAL::Exact_rational>(in, y);
         kigumi_read<CGAL::Exact_rational>(in, z);
-        t.add_vertex({CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(x)},
-                      CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(y)},
-                      CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(z)}});
+        new_t.add_vertex({CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(x)},
+                          CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(y)},
+                          CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(z)}});
       }
     }
 
@@ -223,8 +224,12 @@ struct Read<Triangle_soup<K, FaceData>> {
       kigumi_read<Vertex_index>(in, face[1]);
       kigumi_read<Vertex_index>(in, face[2]);
       kigumi_read<FaceData>(in, f_data);
-      auto fi = t.add_face(face);
-      t.data(fi) = f_data;
+      auto fi = new_t.add_face(face);
+      new_t.data(fi) = f_data;
+    }
+
+    if (in) {
+      t = std::move(new_t);
     }
   }
 };
-- 
2.43.0


From 2844d586e26bb18dffbd11225df03a70a9ec5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 11/17] fix: stop reading lists once the input has failed

---
 include/kigumi/Triangle_soup.h | 4 ++--
 include/kigumi/io/off.h        | 2 +-
 include/kigumi/io/ply.h        | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index 62b2adf..fb02702 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -192,7 +192,7 @@ struct Read<Triangle_soup<K, FaceData>> {
     kigumi_read<std::int32_t>(in, num_vertices);
     kigumi_read<std::int32_t>(in, num_faces);
 
-    for (std::size_t i = 0; i < num_vertices; ++i) {
+    for (std::size_t i = 0; i < num_vertices && in; ++i) {
       bool is_exact{};
       kigumi_read<bool>(in, is_exact);
 
@@ -217,7 +217,7 @@ struct Read<Triangle_soup<K, FaceData>> {
       }
     }
 
-    for (std::size_t i = 0; i < num_faces; ++i) {
+    for (std::size_t i = 0; i < num_faces && in; ++i) {
       Face face{};
       FaceData f_data{};
       kigumi_read<Vertex_index>(in, face[0]);
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index d238cc9..c14aaea 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -140,7 +140,7 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         face.clear();
         std::size_t count{};
         iss >> count;
-        for (std::size_t i = 0; i < count; ++i) {
+        for (std::size_t i = 0; i < count && iss; ++i) {
           std::size_t v{};
           iss >> v;
           face.push_back(Vertex_index{v});
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 84d0f3a..81a1da2 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -219,7 +219,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         } else if (it->type == "list") {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; i < count && iss; ++i) {
             iss >> s;
           }
         } else {
@@ -237,7 +237,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         if (it == vertex_index_property_it) {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; i < count && iss; ++i) {
             std::size_t v{};
             iss >> v;
             face.push_back(Vertex_index{v});
@@ -245,7 +245,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         } else if (it->type == "list") {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; i < count && iss; ++i) {
             iss >> s;
           }
         } else {
-- 
2.43.0


From a0ee4047e04f652f419aa7dfd7bd17009417f540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 12/17] fix: reject non-finite coordinates in .kigumi files

---
 include/kigumi/Triangle_soup.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index fb02702..4fe8aef 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -13,6 +13,7 @@
 #include <kigumi/mesh_utility.h>
 
 #include <boost/range/iterator_range.hpp>
+#include <cmath>
 #include <cstdint>
 #include <iostream>
 #include <memory>
@@ -203,6 +204,10 @@ struct Read<Triangle_soup<K, FaceData>> {
         kigumi_read<double>(in, x);
         kigumi_read<double>(in, y);
         kigumi_read<double>(in, z);
+        if (!std::isfinite(x) || !std::isfinite(y) || !std::isfinite(z)) {
+          in.setstate(std::ios::failbit);
+          return;
+        }
         new_t.add_vertex({x, y, z});
       } else {
         CGAL::Exact_rational x;
-- 
2.43.0


From 3aca787fd9cd336e8aeb3310328a1584e71b6d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 13/17] fix: reject files whose faces refer to nonexistent
 vertices

---
 include/kigumi/Triangle_soup.h | 16 ++++++++++++++++
 include/kigumi/io/obj.h        |  5 +++++
 include/kigumi/io/off.h        |  5 +++++
 include/kigumi/io/ply.h        |  5 +++++
 4 files changed, 31 insertions(+)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index 4fe8aef..6841b9c 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -111,6 +111,18 @@ class Triangle_soup {
 
   const Face& face(Face_index fi) const { return faces_.at(fi.idx()); }
 
+  // Returns true if every face refers to existing vertices only.
+  bool has_valid_faces() const {
+    for (const auto& face : faces_) {
+      for (auto vi : face) {
+        if (vi.idx() >= points_.size()) {
+          return false;
+        }
+      }
+    }
+    return true;
+  }
+
   const Point& point(Vertex_index vi) const { return points_.at(vi.idx()); }
 
   Triangle triangle(Face_index fi) const {
@@ -233,6 +245,10 @@ struct Read<Triangle_soup<K, FaceData>> {
       new_t.data(fi) = f_data;
     }
 
+    if (in && !new_t.has_valid_faces()) {
+      in.setstate(std::ios::failbit);
+    }
+
     if (in) {
       t = std::move(new_t);
     }
diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 3f95ab8..d6b6110 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -87,6 +87,11 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  if (!new_soup.has_valid_faces()) {
+    std::cerr << "invalid vertex index" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index c14aaea..9f28864 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -171,6 +171,11 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  if (!new_soup.has_valid_faces()) {
+    std::cerr << "invalid vertex index" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 81a1da2..de7af8e 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -274,6 +274,11 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  if (!new_soup.has_valid_faces()) {
+    std::cerr << "invalid vertex index" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
-- 
2.43.0


From f93d933c3455b7647a56010529004060ff43a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 14/17] fix: reject .kigumi files whose region kind is unknown
 or contradicts the boundary

---
 include/kigumi/Region.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/kigumi/Region.h b/include/kigumi/Region.h
index c1a4393..50d9ca4 100644
--- a/include/kigumi/Region.h
+++ b/include/kigumi/Region.h
@@ -30,6 +30,10 @@ struct Read<Region_kind> {
   void operator()(std::istream& in, Region_kind& t) const {
     std::uint8_t x{};
     kigumi_read<std::uint8_t>(in, x);
+    if (x > static_cast<std::uint8_t>(Region_kind::BOUNDARY_DEFINED)) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
     t = static_cast<Region_kind>(x);
   }
 };
@@ -113,6 +117,10 @@ struct Read<Region<K, FaceData>> {
     kigumi_read<Region_kind>(in, kind);
     kigumi_read<Triangle_soup<K, FaceData>>(in, boundary);
 
+    if ((kind == Region_kind::BOUNDARY_DEFINED) != (boundary.num_faces() != 0)) {
+      in.setstate(std::ios::failbit);
+    }
+
     if (in) {
       t.kind_ = kind;
       t.boundary_ = std::move(boundary);
-- 
2.43.0


From 8d7bed83c06395a0187b8801335a451e5d742dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 15/17] fix: do not drop the rest of an unparsable OBJ face
 line; report read errors

---
 include/kigumi/io/obj.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index d6b6110..f9338b6 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -63,7 +63,16 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     } else if (s == "f") {
       face.clear();
       std::ptrdiff_t v{};
-      while (iss >> v) {
+      while (true) {
+        iss.clear();
+        if (iss >> opt_hash_comment_eof) {
+          break;
+        }
+        iss.clear();
+        if (!(iss >> v)) {
+          std::cerr << "invalid face line: " << line << std::endl;
+          return false;
+        }
         if (v > 0) {
           face.push_back(Vertex_index{static_cast<std::size_t>(v) - 1});
         } else if (v < 0) {
@@ -87,6 +96,11 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  if (is.bad()) {
+    std::cerr << "failed to read" << std::endl;
+    return false;
+  }
+
   if (!new_soup.has_valid_faces()) {
     std::cerr << "invalid vertex index" << std::endl;
     return false;
-- 
2.43.0


From d7c1d1f746252004fbd7a872b87f9c2e149b0da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 16/17] fix: do not write face tags of shared faces from
 several threads

---
 include/kigumi/Find_coplanar_faces.h | 42 +++++++++++++++++-----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/include/kigumi/Find_coplanar_faces.h b/include/kigumi/Find_coplanar_faces.h
index c9655a8..045508b 100644
--- a/include/kigumi/Find_coplanar_faces.h
+++ b/include/kigumi/Find_coplanar_faces.h
@@ -44,22 +44,32 @@ class Find_coplanar_faces {
       triangle_to_fi.emplace(tri, fi);
     }
 
-    parallel_do(b.faces().begin(), b.faces().end(), [&](Face_index fi) {
-      auto tri = triangle(b, fi, b_points);
-
-      auto it = triangle_to_fi.find(tri);
-      if (it != triangle_to_fi.end()) {
-        a_face_tags.at(it->second.idx()) = Face_tag::COPLANAR;
-        b_face_tags.at(fi.idx()) = Face_tag::COPLANAR;
-        return;
-      }
-
-      it = triangle_to_fi.find(opposite(tri));
-      if (it != triangle_to_fi.end()) {
-        a_face_tags.at(it->second.idx()) = Face_tag::OPPOSITE;
-        b_face_tags.at(fi.idx()) = Face_tag::OPPOSITE;
-      }
-    });
+    // Faces of `b` that have the same vertices share a face of `a`.
+    using Tagged_faces = std::vector<std::pair<Face_index, Face_tag>>;
+
+    parallel_do(
+        b.faces().begin(), b.faces().end(), Tagged_faces{},
+        [&](Face_index fi, Tagged_faces& local_a_faces) {
+          auto tri = triangle(b, fi, b_points);
+
+          auto it = triangle_to_fi.find(tri);
+          if (it != triangle_to_fi.end()) {
+            local_a_faces.emplace_back(it->second, Face_tag::COPLANAR);
+            b_face_tags.at(fi.idx()) = Face_tag::COPLANAR;
+            return;
+          }
+
+          it = triangle_to_fi.find(opposite(tri));
+          if (it != triangle_to_fi.end()) {
+            local_a_faces.emplace_back(it->second, Face_tag::OPPOSITE);
+            b_face_tags.at(fi.idx()) = Face_tag::OPPOSITE;
+          }
+        },
+        [&](const Tagged_faces& local_a_faces) {
+          for (const auto& [fi, tag] : local_a_faces) {
+            a_face_tags.at(fi.idx()) = tag;
+          }
+        });
 
     return {std::move(left_face_tags), std::move(right_face_tags)};
   }
-- 
2.43.0


From 5e5e2e9826cd5cf99cbc108af4ec7587edde7add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 17/17] fix: pass on exceptions thrown while a worker copies
 the state

---
 include/kigumi/parallel_do.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index 7650785..38370be 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -41,9 +41,10 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
     threads.emplace_back([&] {
       Threading_context context{threading_options};
-      auto local_state = state;
 
       try {
+        auto local_state = state;
+
         while (true) {
           auto index = next_index++;
           if (index >= size) {
-- 
2.43.0


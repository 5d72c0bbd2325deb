From d54bc38f0aa39ebe3fc6fdda4cd4dc2cb9b1e87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 01/25] fix: fail when a query set or query groups file cannot
 be read completely

---
 tools/GenericKwsEvalTool.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 4b9bb0e..904d2c7 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -316,6 +316,11 @@ class GenericKwsEvalTool {
         auto q = (*query_mapper_)(qt);
         query2group[q] = q;
       }
+      if (qfs.bad()) {
+        std::cerr << "ERROR: Failed reading query set file \""
+                  << queryset_filename << "\"!" << std::endl;
+        return 1;
+      }
       qfs.close();
       std::cerr << "INFO: " << query2group.size()
                 << " queries were read from \""
@@ -332,7 +337,7 @@ class GenericKwsEvalTool {
         std::vector<QType> fields;
         std::istringstream iss(line);
         while (iss >> s) { fields.push_back((*query_mapper_)(s)); }
-        if (fields.size() < 2) {
+        if (iss.bad() || fields.size() < 2) {
           std::cerr << "ERROR: Query groups file \"" << querygroups_filename
                     << "\" has a wrong format!" << std::endl;
           return 1;
@@ -341,6 +346,11 @@ class GenericKwsEvalTool {
           query2group[fields[i]] = fields[0];
         }
       }
+      if (qfs.bad()) {
+        std::cerr << "ERROR: Failed reading query groups file \""
+                  << querygroups_filename << "\"!" << std::endl;
+        return 1;
+      }
       qfs.close();
       std::cerr << "INFO: " << query2group.size()
                 << " queries were read from \""
-- 
2.43.0


From 4bd29ece793848498b31b0648a980c11b5077ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 02/25] fix: an empty query set selects no query

---
 tools/GenericKwsEvalTool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 904d2c7..dc321e3 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -357,7 +357,7 @@ class GenericKwsEvalTool {
                 << querygroups_filename << "\"" << std::endl;
     }
 
-    if (!query2group.empty()) {
+    if (!queryset_filename.empty() || !querygroups_filename.empty()) {
       // Filter out reference events.
       const size_t num_ref_events = ref_events.size();
       filter_events(query2group, &ref_events);
-- 
2.43.0


From 95edfd788abfb313c087ec1f519c9ad0f094962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 03/25] fix: do not take an error reading the standard input
 for its end

---
 tools/GenericKwsEvalTool.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index dc321e3..6f5910d 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -156,6 +156,9 @@ class GenericKwsEvalTool {
 #ifdef WITH_GLOG
     google::InitGoogleLogging(argv[0]);
 #endif
+    // The streams synchronized with C stdio take read errors for the end of the
+    // input, and lose what is written when a write is interrupted.
+    std::ios_base::sync_with_stdio(false);
 
     std::string ref_filename;
     std::string hyp_filename;
-- 
2.43.0


From d8781f76c7f7219eb68e889fee52ae8c11a742e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 04/25] fix: fail when the matches cannot be dumped completely

---
 tools/GenericKwsEvalTool.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 6f5910d..4b4c47d 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -423,6 +423,11 @@ class GenericKwsEvalTool {
         mfs << "## " << m << std::endl;
       }
       mfs.close();
+      if (!mfs) {
+        std::cerr << "ERROR: Failed writing dump matches file \""
+                  << matches_filename << "\"!" << std::endl;
+        return 1;
+      }
     }
 
     {
-- 
2.43.0


From 29b0e9f09bdf5aa8f0fa75f8a4054f744afce4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 05/25] fix: fail when the scores cannot be written

---
 tools/GenericKwsEvalTool.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 4b4c47d..1499ae1 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -490,6 +490,11 @@ class GenericKwsEvalTool {
           interpolated_precision, trapezoid_integral);
     }
 
+    if (!std::cout.flush()) {
+      std::cerr << "ERROR: Failed writing to the standard output!" << std::endl;
+      return 1;
+    }
+
     return 0;
   }
 
-- 
2.43.0


From aa1c586367b396de9f53943931d8ec270f121a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 06/25] fix: mean recall-precision curve without any query

---
 tools/GenericKwsEvalTool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 1499ae1..92c9fe8 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -146,7 +146,7 @@ class GenericKwsEvalTool {
       for (size_t q = 1; q <= NQ; ++q) {
         s += sampled_pr[q][i];
       }
-      sampled_pr[0].push_back(s / NQ);
+      sampled_pr[0].push_back(NQ > 0 ? s / NQ : 0.0);
     }
 
     core::WriteCurveToFile(filename, sampled_rc, sampled_pr[0]);
-- 
2.43.0


From 57a311e0f75cc134900735af42bca031c44530e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 07/25] fix: quantiles of the bootstrap outside of the samples

---
 core/Bootstrapping.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index 7cbc227..e76e0dd 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -77,8 +77,13 @@ double ComputePercentileBootstrapCI(
     statistics_diffs.push_back(sample_statistic - observed_statistic);
   }
   std::sort(statistics_diffs.begin(), statistics_diffs.end());
-  const auto li = (size_t)((1.0 - alpha * 0.5) * repetitions);
-  const auto ui = (size_t)((      alpha * 0.5) * repetitions);
+  if (statistics_diffs.empty()) {
+    *lower_bound = *upper_bound = observed_statistic;
+    return observed_statistic;
+  }
+  const size_t last = statistics_diffs.size() - 1;
+  const auto li = std::min((size_t)((1.0 - alpha * 0.5) * repetitions), last);
+  const auto ui = std::min((size_t)((      alpha * 0.5) * repetitions), last);
   *lower_bound = observed_statistic - statistics_diffs[li];
   *upper_bound = observed_statistic - statistics_diffs[ui];
   return observed_statistic;
-- 
2.43.0


From 64e8ffc73205d736353706e218996085a661b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 08/25] fix: MatchesSampler doubles the size of its samples

---
 core/Bootstrapping.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index e76e0dd..35477cc 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -21,7 +21,8 @@ class MatchesSampler {
   void operator()(const Container &original, Container *sampled) {
     const size_t num_matches = original.size();
     std::uniform_int_distribution <size_t> mdist(0, num_matches - 1);
-    sampled->resize(num_matches);
+    sampled->clear();
+    sampled->reserve(num_matches);
     for (size_t i = 0; i < num_matches; ++i) {
       sampled->push_back(original[mdist(rng_)]);
     }
-- 
2.43.0


From 94acd666506cad8da603f1021420c85b6f5dc483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 09/25] fix: uninitialized size of an event set made from a
 range

---
 core/DocumentBoundingBoxEventSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/DocumentBoundingBoxEventSet.h b/core/DocumentBoundingBoxEventSet.h
index 9328867..341d0ea 100644
--- a/core/DocumentBoundingBoxEventSet.h
+++ b/core/DocumentBoundingBoxEventSet.h
@@ -36,7 +36,7 @@ class EventSet<E<Q, DocumentBoundingBox<T>>> {
   virtual ~EventSet() {}
 
   template <typename I>
-  EventSet(I begin, I end) {
+  EventSet(I begin, I end) : size_(0) {
     for (I it = begin; it != end; ++it) { Insert(*it); }
   }
 
-- 
2.43.0


From 90e0a8ac8ebe46044fd60ea9b651f58bb3e2f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 10/25] fix: assignment of matches leaks memory and empties
 self-assigned ones

---
 core/Match.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 7a33e4e..3a2aa2c 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -53,8 +53,9 @@ class Match {
   }
 
   Match& operator=(const Match& other) {
+    if (this == &other) return *this;
     error_ = other.error_;
-    ref_.release(); hyp_.release();
+    ref_.reset(); hyp_.reset();
     if (other.HasRef()) SetRef(other.GetRef());
     if (other.HasHyp()) SetHyp(other.GetHyp());
     return *this;
-- 
2.43.0


From f1ed754de09039a26277b396f6d3a9ead13cf4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 11/25] fix: endless recursion in the comparison of matches

---
 core/Match.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 3a2aa2c..46df177 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -77,7 +77,7 @@ class Match {
   }
 
   bool operator!=(const Match& other) const {
-    return !(*this != other);
+    return !(*this == other);
   }
 
   static Match<RE, HE> MakeFalsePositive(const HE& hyp) {
-- 
2.43.0


From a18b1fcdd1e2f960c63cebe4c59bcedaabae45de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 12/25] fix: operator<= of scored events

---
 core/ScoredEvent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ScoredEvent.h b/core/ScoredEvent.h
index 269097f..d99c964 100644
--- a/core/ScoredEvent.h
+++ b/core/ScoredEvent.h
@@ -42,7 +42,7 @@ class ScoredEvent : public E {
   }
 
   virtual bool operator<=(const ScoredEvent& other) const {
-    return !(other > *this);
+    return !(*this > other);
   }
 
   virtual bool operator>=(const ScoredEvent& other) const {
-- 
2.43.0


From acd930f332e778c1f4b04b8a31d01f4303f3b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 13/25] fix: invalid numbers are accepted as values of options

---
 cmd/Option.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/Option.h b/cmd/Option.h
index 6472c62..68f20d9 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -52,7 +52,7 @@ class Option : public BaseOption {
   bool Parse(const std::string &str) override {
     std::istringstream iss(str);
     iss >> std::noskipws >> *value_;
-    return iss.eof();
+    return !iss.fail() && iss.eof();
   }
 
   const std::string& Name() const override {
-- 
2.43.0


From 9d940842777c3b1ea2779607ec8166f1bf3300d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 14/25] fix: mappers leak or doubly release the map that they
 own

---
 mapper/StringEventToIntMapper.h | 13 +++++++++++++
 mapper/StringToIntMapper.h      |  9 +++++++++
 2 files changed, 22 insertions(+)

diff --git a/mapper/StringEventToIntMapper.h b/mapper/StringEventToIntMapper.h
index 48721cd..5299395 100644
--- a/mapper/StringEventToIntMapper.h
+++ b/mapper/StringEventToIntMapper.h
@@ -30,6 +30,19 @@ class StringEventToIntMapper :
   StringEventToIntMapper(StringToIntMapper<Int> *map, bool own)
       : map_(map), own_(own) {}
 
+  StringEventToIntMapper& operator=(const StringEventToIntMapper &other) {
+    if (this != &other) {
+      if (own_) delete map_;
+      map_ = other.map_;
+      own_ = false;
+    }
+    return *this;
+  }
+
+  ~StringEventToIntMapper() {
+    if (own_) delete map_;
+  }
+
   OutputType operator()(const InputType &input) override {
     return OutputType((*map_)(input.Query()), (*map_)(input.Location()));
   }
diff --git a/mapper/StringToIntMapper.h b/mapper/StringToIntMapper.h
index 267ff0e..1a0482e 100644
--- a/mapper/StringToIntMapper.h
+++ b/mapper/StringToIntMapper.h
@@ -29,6 +29,15 @@ class StringToIntMapper : public Mapper<std::string, Int> {
 
   StringToIntMapper(Impl *impl, bool own) : impl_(impl), own_(own) {}
 
+  StringToIntMapper& operator=(const StringToIntMapper &other) {
+    if (this != &other) {
+      if (own_) delete impl_;
+      impl_ = other.impl_;
+      own_ = false;
+    }
+    return *this;
+  }
+
   ~StringToIntMapper() {
     if (own_) {
       delete impl_;
-- 
2.43.0


From fbc73356fc0496d278687814728e5df395bd71e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 15/25] fix: a failed assignment leaves a match half assigned

---
 core/Match.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/core/Match.h b/core/Match.h
index 46df177..3e57f8c 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -53,12 +53,8 @@ class Match {
   }
 
   Match& operator=(const Match& other) {
-    if (this == &other) return *this;
-    error_ = other.error_;
-    ref_.reset(); hyp_.reset();
-    if (other.HasRef()) SetRef(other.GetRef());
-    if (other.HasHyp()) SetHyp(other.GetHyp());
-    return *this;
+    Match copy(other);
+    return *this = std::move(copy);
   }
 
   Match& operator=(Match&& other) {
-- 
2.43.0


From c7e520479ad2c5e51f7edce75577c48d621bf12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 16/25] fix: numbers of a bounding box glued to what follows
 are accepted

---
 core/BoundingBox.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/BoundingBox.h b/core/BoundingBox.h
index 36b2228..962dfd0 100644
--- a/core/BoundingBox.h
+++ b/core/BoundingBox.h
@@ -1,6 +1,7 @@
 #ifndef CORE_BOUNDINGBOX_H_
 #define CORE_BOUNDINGBOX_H_
 
+#include <cctype>
 #include <cmath>
 #include <iostream>
 
@@ -64,7 +65,13 @@ struct BoundingBox {
 
 template <typename T>
 std::istream& operator>>(std::istream& is, BoundingBox<T>& bb) {
-  is >> bb.x >> bb.y >> bb.w >> bb.h;
+  for (T* v : {&bb.x, &bb.y, &bb.w, &bb.h}) {
+    is >> *v;
+    // What follows without a space in between belongs to the same field.
+    if (is.good() && !std::isspace(is.peek())) {
+      is.setstate(std::ios_base::failbit);
+    }
+  }
   return is;
 }
 
-- 
2.43.0


From 082483f633382ac6660bc3ab5a7645b3cf5e7394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 17/25] fix: do not take "-xNAME" for the option "--NAME"

---
 cmd/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/Parser.h b/cmd/Parser.h
index cc48590..96be543 100644
--- a/cmd/Parser.h
+++ b/cmd/Parser.h
@@ -101,7 +101,7 @@ class Parser {
       if (arg == "--") { break; }   // Skip options section with "--".
       if (arg == "--help") { show_help = true; continue; }
       const std::string opt_name = arg.substr(2);
-      auto opt_it = opts_.find(opt_name);
+      auto opt_it = arg[1] == '-' ? opts_.find(opt_name) : opts_.end();
       if (opt_it == opts_.end()) {
         std::cerr << "ERROR: Unknown option '" << arg << "'" << std::endl;
         return false;
-- 
2.43.0


From ac012ca91a469055026362d2b7b813ad09f7d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 18/25] fix: reject negative values for the unsigned options

---
 cmd/Option.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/Option.h b/cmd/Option.h
index 68f20d9..9104dc5 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -6,6 +6,7 @@
 #include <iostream>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 #include "core/TypeInfo.h"
 
@@ -50,6 +51,10 @@ class Option : public BaseOption {
   }
 
   bool Parse(const std::string &str) override {
+    // The streams accept negative numbers for the unsigned types, and wrap them.
+    if (std::is_unsigned<T>::value && !str.empty() && str[0] == '-') {
+      return false;
+    }
     std::istringstream iss(str);
     iss >> std::noskipws >> *value_;
     return !iss.fail() && iss.eof();
-- 
2.43.0


From c7b2836d21ba3ad391f1464a3983bc35c51be25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 19/25] fix: report the curve file that cannot be written

---
 tools/GenericKwsEvalTool.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 92c9fe8..cb3c630 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -479,15 +479,27 @@ class GenericKwsEvalTool {
         core::MeanNDCG<MatchType>(collapse_matches));
 
     if (!grp_filename.empty()) {
-      WriteGlobalRPCurve(
-          grp_filename, matches, curve_samples, collapse_matches,
-          interpolated_precision, trapezoid_integral);
+      try {
+        WriteGlobalRPCurve(
+            grp_filename, matches, curve_samples, collapse_matches,
+            interpolated_precision, trapezoid_integral);
+      } catch (const std::ios_base::failure &) {
+        std::cerr << "ERROR: Failed writing global recall-precision curve \""
+                  << grp_filename << "\"!" << std::endl;
+        return 1;
+      }
     }
 
     if (!mrp_filename.empty()) {
-      WriteMeanRPCurve(
-          mrp_filename, matches_by_group, curve_samples, collapse_matches,
-          interpolated_precision, trapezoid_integral);
+      try {
+        WriteMeanRPCurve(
+            mrp_filename, matches_by_group, curve_samples, collapse_matches,
+            interpolated_precision, trapezoid_integral);
+      } catch (const std::ios_base::failure &) {
+        std::cerr << "ERROR: Failed writing mean recall-precision curve \""
+                  << mrp_filename << "\"!" << std::endl;
+        return 1;
+      }
     }
 
     if (!std::cout.flush()) {
-- 
2.43.0


From 44aa7b3aa9d7e14f298ffe750af6c8e7ed43092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 20/25] fix: report a failure of the standard input as such
 when there are options

---
 tools/GenericKwsEvalTool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index cb3c630..c2f9f73 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -290,7 +290,7 @@ class GenericKwsEvalTool {
     if (!(hyp_filename.empty()
           ? hyp_reader_->Read(&std::cin, &hyp_events)
           : hyp_reader_->Read(hyp_filename, &hyp_events))) {
-      if (argc == 2) {
+      if (hyp_filename.empty()) {
         std::cerr << "ERROR: Failed reading from stdin!" << std::endl;
       } else {
         std::cerr << "ERROR: Failed reading file \"" << hyp_filename << "\"!"
-- 
2.43.0


From f0bc1f0b4741d9b50dbb45d3ee216983519f6c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 21/25] fix: areas and corners of large bounding boxes
 overflowed

---
 core/BoundingBox.h         | 34 +++++++++++++++++++++++-----------
 core/DocumentBoundingBox.h | 14 ++++++++------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/core/BoundingBox.h b/core/BoundingBox.h
index 962dfd0..b9afd5e 100644
--- a/core/BoundingBox.h
+++ b/core/BoundingBox.h
@@ -3,14 +3,22 @@
 
 #include <cctype>
 #include <cmath>
+#include <cstdint>
 #include <iostream>
+#include <type_traits>
 
 namespace kws {
 namespace core {
 
 template <typename T>
 struct BoundingBox {
-  typedef T Type;
+  // Type of the areas, and of the coordinates of the opposite corner: these
+  // need more bits than the fields, if the fields are integers.
+  typedef typename std::conditional<
+      std::is_integral<T>::value,
+      typename std::conditional<std::is_signed<T>::value,
+                                int64_t, uint64_t>::type,
+      T>::type Type;
   T x, y, w, h;
 
   BoundingBox() {}
@@ -45,20 +53,22 @@ struct BoundingBox {
     return !(*this < other);
   }
 
-  inline T Area() const {
-    return w * h;
+  inline Type Area() const {
+    return static_cast<Type>(w) * h;
   }
 
-  inline T IntersectionArea(const BoundingBox& other) const {
-    const T x1 = std::max<T>(x, other.x);
-    const T x2 = std::min<T>(x + w, other.x + other.w);
-    const T y1 = std::max<T>(y, other.y);
-    const T y2 = std::min<T>(y + h, other.y + other.h);
+  inline Type IntersectionArea(const BoundingBox& other) const {
+    const Type x1 = std::max<T>(x, other.x);
+    const Type x2 = std::min<Type>(static_cast<Type>(x) + w,
+                                   static_cast<Type>(other.x) + other.w);
+    const Type y1 = std::max<T>(y, other.y);
+    const Type y2 = std::min<Type>(static_cast<Type>(y) + h,
+                                   static_cast<Type>(other.y) + other.h);
     if (x1 > x2 || y1 > y2) return 0;
     else return (x2 - x1) * (y2 - y1);
   }
 
-  inline T UnionArea(const BoundingBox& other) const {
+  inline Type UnionArea(const BoundingBox& other) const {
     return Area() + other.Area() - IntersectionArea(other);
   }
 };
@@ -82,12 +92,14 @@ std::ostream& operator<<(std::ostream& os, const BoundingBox<T>& bb) {
 }
 
 template <typename T>
-inline T IntersectionArea(const BoundingBox<T>& a, const BoundingBox<T>& b) {
+inline typename BoundingBox<T>::Type IntersectionArea(
+    const BoundingBox<T>& a, const BoundingBox<T>& b) {
   return a.IntersectionArea(b);
 }
 
 template <typename T>
-inline T UnionArea(const BoundingBox<T>& a, const BoundingBox<T>& b) {
+inline typename BoundingBox<T>::Type UnionArea(
+    const BoundingBox<T>& a, const BoundingBox<T>& b) {
   return a.UnionArea(b);
 }
 
diff --git a/core/DocumentBoundingBox.h b/core/DocumentBoundingBox.h
index b001a1e..14cfa58 100644
--- a/core/DocumentBoundingBox.h
+++ b/core/DocumentBoundingBox.h
@@ -43,14 +43,16 @@ struct DocumentBoundingBox : public BoundingBox<T> {
     return !(*this < other);
   }
 
-  inline T IntersectionArea(const DocumentBoundingBox& other) const {
+  inline typename BoundingBox<T>::Type IntersectionArea(
+      const DocumentBoundingBox& other) const {
     if (document == other.document)
       return BoundingBox<T>::IntersectionArea(other);
     else
       return 0;
   }
 
-  inline T UnionArea(const DocumentBoundingBox& other) const {
+  inline typename BoundingBox<T>::Type UnionArea(
+      const DocumentBoundingBox& other) const {
     return BoundingBox<T>::Area() + other.Area() - IntersectionArea(other);
   }
 };
@@ -68,14 +70,14 @@ std::ostream& operator<<(std::ostream& os, const DocumentBoundingBox<T>& bb) {
 }
 
 template <typename T>
-inline T IntersectionArea(const DocumentBoundingBox<T>& a,
-                          const DocumentBoundingBox<T>& b) {
+inline typename BoundingBox<T>::Type IntersectionArea(
+    const DocumentBoundingBox<T>& a, const DocumentBoundingBox<T>& b) {
   return a.IntersectionArea(b);
 }
 
 template <typename T>
-inline T UnionArea(const DocumentBoundingBox<T>& a,
-                   const DocumentBoundingBox<T>& b) {
+inline typename BoundingBox<T>::Type UnionArea(
+    const DocumentBoundingBox<T>& a, const DocumentBoundingBox<T>& b) {
   return a.UnionArea(b);
 }
 
-- 
2.43.0


From 7b7f4b0fbd3583f3f8d4dc06b148325beecb6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 22/25] fix: the overlap of large boxes was compared with the
 threshold after rounding

---
 scorer/IntersectionOverHypothesisAreaScorer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scorer/IntersectionOverHypothesisAreaScorer.h b/scorer/IntersectionOverHypothesisAreaScorer.h
index f8d9f52..634411b 100644
--- a/scorer/IntersectionOverHypothesisAreaScorer.h
+++ b/scorer/IntersectionOverHypothesisAreaScorer.h
@@ -22,7 +22,7 @@ class IntersectionOverHypothesisAreaScorer : public Scorer<RE, HE> {
 
   MatchError operator()(const RE& ref, const HE& hyp) override {
     if (ref.Query() == hyp.Query() && hyp.Area() > 0) {
-      const float val = IntersectionArea(ref, hyp) / (1.0f * hyp.Area());
+      const double val = IntersectionArea(ref, hyp) / (1.0 * hyp.Area());
 #if defined(WITH_GLOG) && defined(WITH_GLOG_TRACE)
       DLOG(INFO) << "Evaluating match:" << std::endl
                  << "Ref = " << ref << std::endl
-- 
2.43.0


From 5043cac568fb31950b00ded63337aa2e6826c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 23/25] fix: negative coordinates of unsigned bounding boxes
 were wrapped

---
 core/BoundingBox.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/BoundingBox.h b/core/BoundingBox.h
index b9afd5e..a3a0da3 100644
--- a/core/BoundingBox.h
+++ b/core/BoundingBox.h
@@ -76,6 +76,10 @@ struct BoundingBox {
 template <typename T>
 std::istream& operator>>(std::istream& is, BoundingBox<T>& bb) {
   for (T* v : {&bb.x, &bb.y, &bb.w, &bb.h}) {
+    // The streams accept negative numbers for the unsigned types, and wrap them.
+    if (std::is_unsigned<T>::value && (is >> std::ws).peek() == '-') {
+      is.setstate(std::ios_base::failbit);
+    }
     is >> *v;
     // What follows without a space in between belongs to the same field.
     if (is.good() && !std::isspace(is.peek())) {
-- 
2.43.0


From e12fedd6a7b2d8701e8da53a8111207df844f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 24/25] fix: a copy of a plain text reader used the mapper of
 the original

---
 reader/PlainTextReader.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reader/PlainTextReader.h b/reader/PlainTextReader.h
index 2eb02a0..d321c3b 100644
--- a/reader/PlainTextReader.h
+++ b/reader/PlainTextReader.h
@@ -20,6 +20,16 @@ class PlainTextReader : public PlainTextMapEventReader<IdentityMapper<E>> {
   typedef PlainTextMapEventReader<IdentityMapper<E>> BaseType;
   PlainTextReader() : BaseType(&mapper) {}
 
+  // Each reader uses its own mapper, not the one of the reader it is copied
+  // from (or assigned), which may not live as long.
+  PlainTextReader(const PlainTextReader &other)
+      : BaseType(&mapper), mapper(other.mapper) {}
+
+  PlainTextReader& operator=(const PlainTextReader &other) {
+    mapper = other.mapper;
+    return *this;
+  }
+
  protected:
   IdentityMapper<E> mapper;
 };
-- 
2.43.0


From 1819c5404960f250efccf2f00481937383c59a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 25/25] fix: options leaked when registering them ran out of
 memory

---
 cmd/Parser.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cmd/Parser.h b/cmd/Parser.h
index 96be543..a59d627 100644
--- a/cmd/Parser.h
+++ b/cmd/Parser.h
@@ -2,6 +2,7 @@
 #define CMD_PARSER_H
 
 #include <map>
+#include <memory>
 #include <string>
 #include <vector>
 
@@ -166,24 +167,26 @@ class Parser {
   bool RegisterOption(const std::string& name, const std::string& help,
                       T* value) {
     if (name == "help") return false;  // reserved option name
-    auto opt = new Option<T>("--" + name, help, value);
-    if (!opts_.emplace(name, opt).second) {
-      delete opt;
-      return false;
-    }
+    std::unique_ptr<BaseOption> opt(new Option<T>("--" + name, help, value));
+    if (!opts_.emplace(name, opt.get()).second) return false;
+    opt.release();   // from now on owned by the parser
     return true;
   }
 
   template <typename T>
   void RegisterArgument(const std::string& name, const std::string& help,
                         T* value) {
-    args_.emplace_back(new Argument<T>(name, help, value));
+    std::unique_ptr<BaseOption> arg(new Argument<T>(name, help, value));
+    args_.push_back(arg.get());
+    arg.release();   // from now on owned by the parser
   }
 
   template <typename T>
   void RegisterOptArgument(const std::string& name, const std::string& help,
                            T* value) {
-    opt_args_.emplace_back(new Argument<T>(name, help, value));
+    std::unique_ptr<BaseOption> arg(new Argument<T>(name, help, value));
+    opt_args_.push_back(arg.get());
+    arg.release();   // from now on owned by the parser
   }
 
  private:
-- 
2.43.0


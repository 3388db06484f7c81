From 01e66668124e6a347ade7be7bbd278840bed95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 01/21] fix: ScoredEvent::operator<= was inverted (it returned
 >=)

---
 core/ScoredEvent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ScoredEvent.h b/core/ScoredEvent.h
index 269097f..d99c964 100644
--- a/core/ScoredEvent.h
+++ b/core/ScoredEvent.h
@@ -42,7 +42,7 @@ class ScoredEvent : public E {
   }
 
   virtual bool operator<=(const ScoredEvent& other) const {
-    return !(other > *this);
+    return !(*this > other);
   }
 
   virtual bool operator>=(const ScoredEvent& other) const {
-- 
2.43.0


From 591cece0010743efbd1dc775e3f2aafdde79b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 02/21] fix: Match::operator!= recursed into itself forever

---
 core/Match.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 7a33e4e..173e9cb 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -76,7 +76,7 @@ class Match {
   }
 
   bool operator!=(const Match& other) const {
-    return !(*this != other);
+    return !(*this == other);
   }
 
   static Match<RE, HE> MakeFalsePositive(const HE& hyp) {
-- 
2.43.0


From ca33a88fb81f5baa24d3166aba10517da49e877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 03/21] fix: Match copy assignment lost the events on
 self-assignment and leaked the old ones

---
 core/Match.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 173e9cb..46df177 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -53,8 +53,9 @@ class Match {
   }
 
   Match& operator=(const Match& other) {
+    if (this == &other) return *this;
     error_ = other.error_;
-    ref_.release(); hyp_.release();
+    ref_.reset(); hyp_.reset();
     if (other.HasRef()) SetRef(other.GetRef());
     if (other.HasHyp()) SetHyp(other.GetHyp());
     return *this;
-- 
2.43.0


From ac24712f5dd70aebe3e1cc9fa0bf7f2b3db1975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 04/21] fix: range constructor of the document box EventSet
 left its size uninitialized

---
 core/DocumentBoundingBoxEventSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/DocumentBoundingBoxEventSet.h b/core/DocumentBoundingBoxEventSet.h
index 9328867..341d0ea 100644
--- a/core/DocumentBoundingBoxEventSet.h
+++ b/core/DocumentBoundingBoxEventSet.h
@@ -36,7 +36,7 @@ class EventSet<E<Q, DocumentBoundingBox<T>>> {
   virtual ~EventSet() {}
 
   template <typename I>
-  EventSet(I begin, I end) {
+  EventSet(I begin, I end) : size_(0) {
     for (I it = begin; it != end; ++it) { Insert(*it); }
   }
 
-- 
2.43.0


From 17b15ff33830dc078b541f066c2c93628185a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 05/21] fix: MatchesSampler returned twice as many matches,
 half of them empty

---
 core/Bootstrapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index 7cbc227..033603e 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -21,7 +21,7 @@ class MatchesSampler {
   void operator()(const Container &original, Container *sampled) {
     const size_t num_matches = original.size();
     std::uniform_int_distribution <size_t> mdist(0, num_matches - 1);
-    sampled->resize(num_matches);
+    sampled->clear();
     for (size_t i = 0; i < num_matches; ++i) {
       sampled->push_back(original[mdist(rng_)]);
     }
-- 
2.43.0


From 1621deed58506006824719d1abe88904f117ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 06/21] fix: bootstrap interval read past the end for alpha = 0
 or zero repetitions

---
 core/Bootstrapping.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index 033603e..3a6f9ae 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -76,9 +76,15 @@ double ComputePercentileBootstrapCI(
     // Store the difference w.r.t. the observed statistic
     statistics_diffs.push_back(sample_statistic - observed_statistic);
   }
+  if (repetitions == 0) {
+    *lower_bound = *upper_bound = observed_statistic;
+    return observed_statistic;
+  }
   std::sort(statistics_diffs.begin(), statistics_diffs.end());
-  const auto li = (size_t)((1.0 - alpha * 0.5) * repetitions);
-  const auto ui = (size_t)((      alpha * 0.5) * repetitions);
+  const auto li = std::min((size_t)((1.0 - alpha * 0.5) * repetitions),
+                           repetitions - 1);
+  const auto ui = std::min((size_t)((      alpha * 0.5) * repetitions),
+                           repetitions - 1);
   *lower_bound = observed_statistic - statistics_diffs[li];
   *upper_bound = observed_statistic - statistics_diffs[ui];
   return observed_statistic;
-- 
2.43.0


From 01dc2d288c3f753164657f0da761719676467475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 07/21] fix: options accepted empty, incomplete, out-of-range
 and negative unsigned numbers

---
 cmd/Option.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/Option.h b/cmd/Option.h
index 6472c62..ec08be7 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -50,9 +50,11 @@ class Option : public BaseOption {
   }
 
   bool Parse(const std::string &str) override {
+    // Negative numbers would silently wrap around.
+    if (std::is_unsigned<T>::value && str[0] == '-') return false;
     std::istringstream iss(str);
     iss >> std::noskipws >> *value_;
-    return iss.eof();
+    return !iss.fail() && iss.eof();
   }
 
   const std::string& Name() const override {
-- 
2.43.0


From e90a903826f0554475325aefcd8711da6c6b8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 08/21] fix: -xNAME was accepted as --NAME for any character x

---
 cmd/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/Parser.h b/cmd/Parser.h
index cc48590..96be543 100644
--- a/cmd/Parser.h
+++ b/cmd/Parser.h
@@ -101,7 +101,7 @@ class Parser {
       if (arg == "--") { break; }   // Skip options section with "--".
       if (arg == "--help") { show_help = true; continue; }
       const std::string opt_name = arg.substr(2);
-      auto opt_it = opts_.find(opt_name);
+      auto opt_it = arg[1] == '-' ? opts_.find(opt_name) : opts_.end();
       if (opt_it == opts_.end()) {
         std::cerr << "ERROR: Unknown option '" << arg << "'" << std::endl;
         return false;
-- 
2.43.0


From cce99a9cb6fb0c8a499c7adbd50e9a437cfc9ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 09/21] fix: mean recall-precision curve was NaN when there are
 no matches

---
 tools/GenericKwsEvalTool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 4b9bb0e..c86b37d 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -146,7 +146,7 @@ class GenericKwsEvalTool {
       for (size_t q = 1; q <= NQ; ++q) {
         s += sampled_pr[q][i];
       }
-      sampled_pr[0].push_back(s / NQ);
+      sampled_pr[0].push_back(NQ > 0 ? s / NQ : 0.0);
     }
 
     core::WriteCurveToFile(filename, sampled_rc, sampled_pr[0]);
-- 
2.43.0


From b353d6cf7f57aca435c0dc58e5fe4b2a4b987170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 10/21] fix: an unwritable curve file ended the tool with an
 uncaught exception

---
 tools/GenericKwsEvalTool.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index c86b37d..de589db 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -460,16 +460,22 @@ class GenericKwsEvalTool {
         bootstrap_samples, bootstrap_seed,
         core::MeanNDCG<MatchType>(collapse_matches));
 
-    if (!grp_filename.empty()) {
-      WriteGlobalRPCurve(
-          grp_filename, matches, curve_samples, collapse_matches,
-          interpolated_precision, trapezoid_integral);
-    }
+    try {
+      if (!grp_filename.empty()) {
+        WriteGlobalRPCurve(
+            grp_filename, matches, curve_samples, collapse_matches,
+            interpolated_precision, trapezoid_integral);
+      }
 
-    if (!mrp_filename.empty()) {
-      WriteMeanRPCurve(
-          mrp_filename, matches_by_group, curve_samples, collapse_matches,
-          interpolated_precision, trapezoid_integral);
+      if (!mrp_filename.empty()) {
+        WriteMeanRPCurve(
+            mrp_filename, matches_by_group, curve_samples, collapse_matches,
+            interpolated_precision, trapezoid_integral);
+      }
+    } catch (const std::ios_base::failure &) {
+      std::cerr << "ERROR: Recall-precision curve file could not be written!"
+                << std::endl;
+      return 1;
     }
 
     return 0;
-- 
2.43.0


From 5f421cf7bda121a4f7c7781fc1a350efe9954b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 11/21] fix: a failed write of the match dump went unnoticed

---
 tools/GenericKwsEvalTool.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index de589db..342a40c 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -410,6 +410,11 @@ class GenericKwsEvalTool {
         mfs << "## " << m << std::endl;
       }
       mfs.close();
+      if (!mfs) {
+        std::cerr << "ERROR: Failed writing dump matches file \""
+                  << matches_filename << "\"!" << std::endl;
+        return 1;
+      }
     }
 
     {
-- 
2.43.0


From 0942c975226c3406c3b092f0a03104809c381552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 12/21] fix: a read error in the query set or groups file
 silently disabled the filter

---
 tools/GenericKwsEvalTool.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 342a40c..560d631 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -316,6 +316,11 @@ class GenericKwsEvalTool {
         auto q = (*query_mapper_)(qt);
         query2group[q] = q;
       }
+      if (qfs.bad()) {
+        std::cerr << "ERROR: Query set file \"" << queryset_filename
+                  << "\" could not be read!" << std::endl;
+        return 1;
+      }
       qfs.close();
       std::cerr << "INFO: " << query2group.size()
                 << " queries were read from \""
@@ -341,6 +346,11 @@ class GenericKwsEvalTool {
           query2group[fields[i]] = fields[0];
         }
       }
+      if (qfs.bad()) {
+        std::cerr << "ERROR: Query groups file \"" << querygroups_filename
+                  << "\" could not be read!" << std::endl;
+        return 1;
+      }
       qfs.close();
       std::cerr << "INFO: " << query2group.size()
                 << " queries were read from \""
-- 
2.43.0


From 73fa0d52b246e704a26e386a6d2f321ea35fd932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 13/21] fix: --bootstrap_alpha outside [0, 1] crashed the tool

---
 tools/GenericKwsEvalTool.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 560d631..1480b98 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -267,6 +267,12 @@ class GenericKwsEvalTool {
       return 1;
     }
 
+    if (!(bootstrap_alpha >= 0.0 && bootstrap_alpha <= 1.0)) {
+      std::cerr << "ERROR: Option --bootstrap_alpha must be in [0, 1]!"
+                << std::endl;
+      return 1;
+    }
+
     // Read reference events
     if (ref_filename.empty()) {
       std::cerr << "ERROR: Empty filename was given for the references!"
-- 
2.43.0


From 7767840d686bc02291102242a1a9d2feb264528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 14/21] fix: StringToIntMapper over 64-bit unsigned integers
 never accepted a string

---
 mapper/StringToIntMapper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mapper/StringToIntMapper.h b/mapper/StringToIntMapper.h
index 267ff0e..4d94891 100644
--- a/mapper/StringToIntMapper.h
+++ b/mapper/StringToIntMapper.h
@@ -40,18 +40,18 @@ class StringToIntMapper : public Mapper<std::string, Int> {
     if (it != impl_->end()) {
       return it->second;
     } else {
-      if (impl_->size() < kMaxSize) {
+      if (impl_->size() <= kMaxValue) {
         return impl_->emplace_hint(it, input, impl_->size())->second;
       } else {
         throw std::range_error(
-            "Max size reached (" + std::to_string(kMaxSize) + ")");
+            "Max size reached (" + std::to_string(impl_->size()) + ")");
       }
     }
   }
 
  private:
-  static constexpr size_t kMaxSize =
-      1 + static_cast<size_t>(std::numeric_limits<Int>::max());
+  static constexpr size_t kMaxValue =
+      static_cast<size_t>(std::numeric_limits<Int>::max());
 
   Impl *impl_;
   bool own_;
-- 
2.43.0


From 7db3f2db431e6d29148b1371fa8895d85b044e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 15/21] fix: event files with negative or glued coordinates
 were silently misread

---
 core/BoundingBox.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/BoundingBox.h b/core/BoundingBox.h
index 36b2228..3c7a53f 100644
--- a/core/BoundingBox.h
+++ b/core/BoundingBox.h
@@ -1,8 +1,11 @@
 #ifndef CORE_BOUNDINGBOX_H_
 #define CORE_BOUNDINGBOX_H_
 
+#include <algorithm>
+#include <cctype>
 #include <cmath>
 #include <iostream>
+#include <type_traits>
 
 namespace kws {
 namespace core {
@@ -62,9 +65,25 @@ struct BoundingBox {
   }
 };
 
+// Read a single coordinate, which must be a whole whitespace-separated field.
+template <typename T>
+std::istream& ReadCoordinate(std::istream& is, T* coordinate) {
+  // operator>> wraps negative numbers around when reading unsigned values.
+  if (std::is_unsigned<T>::value && (is >> std::ws).peek() == '-') {
+    is.setstate(std::ios_base::failbit);
+  } else if (is >> *coordinate && !is.eof()) {
+    const int next = is.peek();
+    if (!is.eof() && !std::isspace(next)) is.setstate(std::ios_base::failbit);
+  }
+  return is;
+}
+
 template <typename T>
 std::istream& operator>>(std::istream& is, BoundingBox<T>& bb) {
-  is >> bb.x >> bb.y >> bb.w >> bb.h;
+  ReadCoordinate(is, &bb.x);
+  ReadCoordinate(is, &bb.y);
+  ReadCoordinate(is, &bb.w);
+  ReadCoordinate(is, &bb.h);
   return is;
 }
 
-- 
2.43.0


From 370b5acc7cceb489c975b03c421a6062c5fca0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 16/21] fix: requesting a bootstrap interval could change the
 point estimate

The observed statistic was recomputed from the groups re-sorted by
decreasing score, which differs from the evaluated ranking with
--sort asc or none, or with ties and --collapse_matches false.
---
 core/Bootstrapping.h       | 10 +++++-----
 tools/GenericKwsEvalTool.h |  5 +++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index 3a6f9ae..ee26c48 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -62,10 +62,8 @@ class MatchesByQuerySampler {
 template <typename Container, typename Statistic, typename Sampler>
 double ComputePercentileBootstrapCI(
     const Container& original_samples, size_t repetitions, double alpha,
-    Statistic statistic, Sampler *sampler,
+    double observed_statistic, Statistic statistic, Sampler *sampler,
     double *lower_bound, double *upper_bound) {
-  // Compute observed statistic
-  const double observed_statistic = statistic(original_samples);
   std::vector<double> statistics_diffs;
   for (size_t r = 0; r < repetitions; ++r) {
     // Build bootstrapped sample
@@ -93,13 +91,15 @@ double ComputePercentileBootstrapCI(
 template<typename M, typename Statistic>
 double ComputePercentileBootstrapCI(
     const std::vector<std::vector<M>>& grouped_matches,
-    size_t repetitions, double alpha, size_t random_seed, Statistic statistic,
+    size_t repetitions, double alpha, size_t random_seed,
+    double observed_statistic, Statistic statistic,
     double *lower_bound, double *upper_bound) {
   typedef typename M::RefEvent RefEvent;
   typedef typename M::HypEvent HypEvent;
   MatchesByQuerySampler<RefEvent, HypEvent> sampler(random_seed);
   return ComputePercentileBootstrapCI(grouped_matches, repetitions,
-                                      alpha, statistic, &sampler,
+                                      alpha, observed_statistic,
+                                      statistic, &sampler,
                                       lower_bound, upper_bound);
 }
 
diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 1480b98..18049b5 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -68,7 +68,8 @@ class GenericKwsEvalTool {
       double lower_bound = 0.0, upper_bound = 0.0;
       const double value = ComputePercentileBootstrapCI(
           grouped_matches, bootstrap_samples, bootstrap_alpha, bootstrap_seed,
-          bootstrap_statistic, &lower_bound, &upper_bound);
+          statistic(grouped_matches, false), bootstrap_statistic,
+          &lower_bound, &upper_bound);
       std::cout << "m" << statistic_name << " = " << value
                 << " [" << lower_bound << ", " << upper_bound << "]"
                 << std::endl;
@@ -93,7 +94,7 @@ class GenericKwsEvalTool {
       double lower_bound = 0.0, upper_bound = 0.0;
       const double value = ComputePercentileBootstrapCI(
           grouped_matches, bootstrap_samples, bootstrap_alpha, bootstrap_seed,
-          bootstrap_statistic, &lower_bound, &upper_bound);
+          statistic(matches), bootstrap_statistic, &lower_bound, &upper_bound);
       std::cout << "g" << statistic_name << " = " << value
                 << " [" << lower_bound << ", " << upper_bound << "]"
                 << std::endl;
-- 
2.43.0


From ef7437733a9648c63ddd6c592aad3e09bb52cd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 17/21] fix: 8-bit integer options were parsed as single
 characters

---
 cmd/Option.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/cmd/Option.h b/cmd/Option.h
index ec08be7..33fa8a9 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -2,6 +2,7 @@
 #define CMD_OPTION_H
 
 #include <cassert>
+#include <cstdint>
 #include <iomanip>
 #include <iostream>
 #include <sstream>
@@ -91,6 +92,29 @@ bool Option<bool>::Parse(const std::string& str) {
   }
 }
 
+// Specializations for the 8-bit integers, which operator>> reads as characters.
+template <>
+bool Option<int8_t>::Parse(const std::string &str) {
+  int16_t value = *value_;
+  if (!Option<int16_t>(name_, help_, &value).Parse(str) ||
+      value < INT8_MIN || value > INT8_MAX) {
+    return false;
+  }
+  *value_ = static_cast<int8_t>(value);
+  return true;
+}
+
+template <>
+bool Option<uint8_t>::Parse(const std::string &str) {
+  uint16_t value = *value_;
+  if (!Option<uint16_t>(name_, help_, &value).Parse(str) ||
+      value > UINT8_MAX) {
+    return false;
+  }
+  *value_ = static_cast<uint8_t>(value);
+  return true;
+}
+
 // Specialization for std::string
 template <>
 bool Option<std::string>::Parse(const std::string &str) {
-- 
2.43.0


From 2d607dea9b4ceb73ddfda21eeb7efe7792b403f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 18/21] fix: a read error on standard input was taken for the
 end of the hypotheses

---
 tools/GenericKwsEvalTool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 18049b5..d4780f8 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -1,6 +1,7 @@
 #ifndef TOOLS_GENERICKWSEVALTOOL_H_
 #define TOOLS_GENERICKWSEVALTOOL_H_
 
+#include <cstdio>
 #include <iostream>
 #include <fstream>
 #include <string>
@@ -292,7 +293,7 @@ class GenericKwsEvalTool {
     // Read hypothesis events
     std::vector<HypEvent> hyp_events;
     if (!(hyp_filename.empty()
-          ? hyp_reader_->Read(&std::cin, &hyp_events)
+          ? hyp_reader_->Read(&std::cin, &hyp_events) && !std::ferror(stdin)
           : hyp_reader_->Read(hyp_filename, &hyp_events))) {
       if (argc == 2) {
         std::cerr << "ERROR: Failed reading from stdin!" << std::endl;
-- 
2.43.0


From 66bd20dc1909f3c9ad368907f07e1764b005e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 19/21] fix: a failed write of the results to the standard
 output went unnoticed

---
 tools/GenericKwsEvalTool.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index d4780f8..2fdb82c 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -501,6 +501,12 @@ class GenericKwsEvalTool {
       return 1;
     }
 
+    if (!std::cout.flush()) {
+      std::cerr << "ERROR: Failed writing the results to the standard output!"
+                << std::endl;
+      return 1;
+    }
+
     return 0;
   }
 
-- 
2.43.0


From c812444c2205b83b693d4a0ba9eb2370d33e0f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 20/21] fix: the help text showed the values of 8-bit integer
 options as raw characters

---
 cmd/Option.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/Option.h b/cmd/Option.h
index 33fa8a9..aaef1a1 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -15,6 +15,13 @@ namespace cmd {
 
 using kws::core::TypeInfo;
 
+// Values as shown by Help(). Note: 8-bit integers are shown as numbers, while
+// operator<< writes them as characters.
+template<typename T>
+inline const T& ShownValue(const T &value) { return value; }
+inline int ShownValue(int8_t value) { return value; }
+inline int ShownValue(uint8_t value) { return value; }
+
 class BaseOption {
  public:
   virtual ~BaseOption() {}
@@ -42,7 +49,7 @@ class Option : public BaseOption {
     std::ostringstream oss;
     oss << std::setw(w) << std::left << name_ << " : " << help_
         << " (type = " << TypeInfo<T>::Name()
-        << ", value = \"" << *value_ << "\")";
+        << ", value = \"" << ShownValue(*value_) << "\")";
     return oss.str();
   }
 
-- 
2.43.0


From a3e8a5fc903a335d92af5c54450ddbe1a6596579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:10 +0000
Subject: [PATCH 21/21] fix: assigning a label mapper, or one that outlived the
 mapper it was copied from, used a deleted mapping

---
 mapper/StringToIntMapper.h | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/mapper/StringToIntMapper.h b/mapper/StringToIntMapper.h
index 4d94891..74901ce 100644
--- a/mapper/StringToIntMapper.h
+++ b/mapper/StringToIntMapper.h
@@ -3,6 +3,7 @@
 
 #include <exception>
 #include <limits>
+#include <memory>
 #include <string>
 #include <unordered_map>
 
@@ -20,20 +21,17 @@ class StringToIntMapper : public Mapper<std::string, Int> {
   typedef typename Mapper<std::string, Int>::InputType InputType;
   typedef typename Mapper<std::string, Int>::OutputType OutputType;
 
-  StringToIntMapper() : impl_(new Impl), own_(true) {}
+  StringToIntMapper() : StringToIntMapper(new Impl, true) {}
 
-  StringToIntMapper(const StringToIntMapper &other)
-      : impl_(other.impl_), own_(false) {}
+  explicit StringToIntMapper(Impl *impl) : StringToIntMapper(impl, false) {}
 
-  explicit StringToIntMapper(Impl *impl) : impl_(impl), own_(false) {}
+  StringToIntMapper(Impl *impl, bool own)
+      : impl_(impl, [own](Impl *p) { if (own) delete p; }) {}
 
-  StringToIntMapper(Impl *impl, bool own) : impl_(impl), own_(own) {}
+  // Copies share the mapping. When it is owned, it lives as long as any of them.
+  StringToIntMapper(const StringToIntMapper &other) = default;
 
-  ~StringToIntMapper() {
-    if (own_) {
-      delete impl_;
-    }
-  }
+  StringToIntMapper &operator=(const StringToIntMapper &other) = default;
 
   OutputType operator()(const InputType &input) override {
     const auto it = impl_->find(input);
@@ -53,8 +51,7 @@ class StringToIntMapper : public Mapper<std::string, Int> {
   static constexpr size_t kMaxValue =
       static_cast<size_t>(std::numeric_limits<Int>::max());
 
-  Impl *impl_;
-  bool own_;
+  std::shared_ptr<Impl> impl_;
 };
 
 }  // namespace mapper
-- 
2.43.0


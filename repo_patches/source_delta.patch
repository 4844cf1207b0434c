From b2ba682242e6ba570a00a8e2002a3aa0f17b6574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 01/20] fix: Interval::has_value was inverted, so bounded
 operators ignored their interval

---
 src/include/signal_tl/ast.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index 54de00c..b26918a 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -190,13 +190,13 @@ struct Interval {
     return start_zero && end_inf;
   }
 
-  /// Check if the interval is [0, inf).
+  /// Check if the interval is bounded, i.e., if it is anything but [0, inf).
   ///
   /// NOTE: Purely for backwards compatibility to a version of signal_tl that
   /// dealt with intervals as `std::pair<double, double>`, and the interval was
   /// stored inside an `std::optional` field in the Temporal operators.
   [[nodiscard]] bool has_value() const {
-    return this->is_zero_to_inf();
+    return !this->is_zero_to_inf();
   }
 };
 
-- 
2.43.0


From 299366166962e9dc4e6a99463fbb542bf793a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 02/20] fix: reject intervals with NaN bounds

---
 src/include/signal_tl/ast.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index b26918a..6ea5b14 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -158,7 +158,8 @@ struct Interval {
   Interval() : low{0.0}, high{std::numeric_limits<double>::infinity()} {};
   Interval(unsigned long long int a, unsigned long long int b) : low{a}, high{b} {}
   Interval(double a, double b) : low{a}, high{b} {
-    if (a < 0 || b < 0) {
+    // Written so that NaN bounds are rejected too.
+    if (!(a >= 0 && b >= 0)) {
       throw std::invalid_argument("Interval cannot have negative values");
     } else if (b <= a) {
       throw std::invalid_argument("Interval [a,b] cannot have b <= a");
-- 
2.43.0


From fe307b885caffbab28e5a1130715226009e6a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 03/20] fix: reject appending samples with a NaN timestamp

---
 src/core/signal.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index a63f59d..8a42d47 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -30,7 +30,8 @@ Sample Signal::at(double t) const {
 
 void Signal::push_back(Sample sample) {
   if (!this->samples.empty()) {
-    if (sample.time <= this->end_time()) {
+    // Written so that NaN timestamps are rejected too.
+    if (!(sample.time > this->end_time())) {
       throw std::invalid_argument(fmt::format(
           "Trying to append a Sample timestamped at or before the Signal end_time,"
           "i.e., time is not strictly monotonically increasing."
-- 
2.43.0


From bcbcc78c56420b50aa8c59b94a3e0d0911f2eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 04/20] fix: slope between equal infinite values is zero, not
 NaN

---
 src/core/signal.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 8a42d47..5eb3017 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -43,7 +43,9 @@ void Signal::push_back(Sample sample) {
     const auto v = this->samples.back().value;
     auto& last   = this->samples.back();
 
-    last.derivative = (sample.value - v) / (sample.time - t);
+    // Equal values need no division; in particular, inf - inf must not yield NaN.
+    last.derivative =
+        (sample.value == v) ? 0.0 : (sample.value - v) / (sample.time - t);
   }
   this->samples.push_back(Sample{sample.time, sample.value, 0.0});
 }
-- 
2.43.0


From 019f26ab1f2a2bcad118979dc5b23314e4cdf79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 05/20] fix: Signal::at interpolates from the preceding sample
 and rejects times out of range

---
 src/core/signal.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 5eb3017..d2272d0 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -12,7 +12,7 @@
 namespace signal_tl::signal {
 
 Sample Signal::at(double t) const {
-  if (this->begin_time() > t && this->end_time() < t) {
+  if (this->empty() || !(this->begin_time() <= t && t <= this->end_time())) {
     throw std::invalid_argument(
         fmt::format("Signal is undefined for given time instance {}", t));
   }
@@ -25,7 +25,9 @@ Sample Signal::at(double t) const {
   if (it->time == t) {
     return *it;
   }
-  return Sample{t, it->interpolate(t), it->derivative};
+  // Since t > begin_time, there is a sample before t to interpolate from.
+  const auto prev = std::prev(it);
+  return Sample{t, prev->interpolate(t), prev->derivative};
 }
 
 void Signal::push_back(Sample sample) {
-- 
2.43.0


From 786d512f8c34b8df5ad31ddeae443bfb7f3de223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 06/20] fix: Signal::end_at must not dereference the end
 iterator

---
 src/include/signal_tl/signal.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/include/signal_tl/signal.hpp b/src/include/signal_tl/signal.hpp
index 9e1679c..b06b92b 100644
--- a/src/include/signal_tl/signal.hpp
+++ b/src/include/signal_tl/signal.hpp
@@ -148,11 +148,10 @@ struct Signal {
     if (this->end_time() <= t)
       return this->end();
 
-    auto it = this->end();
-    while (it->time > t) it = std::prev(it);
-    // Now we have the pointer to the first element from the back whose .time <= t.
-    // So increment by 1 and return
-    return std::next(it);
+    constexpr auto comp_op = [](const Sample& a, const Sample& b) {
+      return a.time < b.time;
+    };
+    return std::upper_bound(this->begin(), this->end(), Sample{t, 0.0}, comp_op);
   }
 
   /**
-- 
2.43.0


From 2948cf9b4ae29bd51a5d852697636bf67775c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 07/20] fix: Signal::resize returns a signal that spans exactly
 the requested range

---
 src/core/signal.cc | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index d2272d0..82631c4 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -72,34 +72,22 @@ SignalPtr Signal::simplify() const {
 }
 
 SignalPtr Signal::resize(double start, double end, double fill) const {
-  auto sig = std::make_shared<Signal>();
-
-  // Check if begin_time > start, then add filled value
-  if (this->begin_time() > start) {
-    sig->push_back(Sample{start, fill, 0.0});
-  }
+  // The value of the original signal, or the fill value where it is not defined.
+  const auto value_at = [this, fill](double t) {
+    const bool defined =
+        !this->empty() && this->begin_time() <= t && t <= this->end_time();
+    return defined ? this->at(t).value : fill;
+  };
 
-  // Truncate the discard all samples where sample.time < start
-  for (auto i = this->begin(); i != this->end(); i++) {
-    const double t = i->time;
-    // If current sample is timed below start, ...
-    if (std::next(i) != this->end() && std::next(i)->time > start) {
-      // and next sample is timed after `start`, append an intermediate value
-      sig->push_back(Sample{start, i->interpolate(start)});
-    } else if (start <= t && t <= end) {
-      // If the samples are within the desired time range, keep the samples.
-      sig->push_back(*i);
-    } else if (t > end) {
-      // If we are out of the range, ...
-      if (i != this->begin() && std::prev(i)->time < end) {
-        // and the previous sample is within the range, interpolate from the last.
-        sig->push_back(Sample{end, std::prev(i)->interpolate(end)});
-      } else {
-        // TODO(anand): Does it make sense to terminate early?
-        break;
-      }
+  auto sig = std::make_shared<Signal>();
+  sig->push_back(start, value_at(start));
+  // Keep the samples that are strictly within the range.
+  for (const auto& s : this->samples) {
+    if (start < s.time && s.time < end) {
+      sig->push_back(s);
     }
   }
+  sig->push_back(end, value_at(end));
 
   return sig;
 }
-- 
2.43.0


From a8143889d883aa61b5bc417accaa2e48e0891ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 08/20] fix: synchronize handles signals that start at
 different times or do not overlap

---
 src/core/signal.cc | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 82631c4..1fbc6cc 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -115,22 +115,14 @@ synchronize(const std::shared_ptr<Signal>& x, const std::shared_ptr<Signal>& y)
   auto xv = std::vector<Sample>{};
   auto yv = std::vector<Sample>{};
 
-  // Iterator to the first element where element.time <= begin_time.
-  // If the iterator begins after begin_time, get the prev (if it exists) and
-  // interpolate from it.
+  // Iterators to the first elements where element.time >= begin_time. One of the
+  // signals starts at begin_time, and if the other one has no sample there, it has one
+  // before to interpolate from.
   constexpr auto comp_time = [](const Sample& a, const Sample& b) -> bool {
     return a.time < b.time;
   };
   auto i = std::lower_bound(x->begin(), x->end(), Sample{begin_time, 0.0}, comp_time);
-  if (i->time > begin_time && i != x->begin()) {
-    xv.push_back(Sample{
-        begin_time, std::prev(i)->interpolate(begin_time), std::prev(i)->derivative});
-  }
   auto j = std::lower_bound(y->begin(), y->end(), Sample{begin_time, 0.0}, comp_time);
-  if (j->time > begin_time && j != y->begin()) {
-    yv.push_back(Sample{
-        begin_time, std::prev(j)->interpolate(begin_time), std::prev(i)->derivative});
-  }
 
   // Now, we have to track the timestamps.
   while (i != x->end() && j != y->end()) {
@@ -154,14 +146,6 @@ synchronize(const std::shared_ptr<Signal>& x, const std::shared_ptr<Signal>& y)
     }
   }
 
-  if (const double t = xv.back().time; yv.back().time < t) {
-    yv.push_back(Sample{xv.back().time, yv.back().interpolate(t)});
-  }
-
-  if (const double t = yv.back().time; xv.back().time < t) {
-    xv.push_back(Sample{yv.back().time, xv.back().interpolate(t)});
-  }
-
   return std::make_tuple(std::make_shared<Signal>(xv), std::make_shared<Signal>(yv));
 }
 
-- 
2.43.0


From 76e34690709fb3ae4314dd74363d4c774807e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 09/20] fix: a crossing rounded past the next sample must not
 break the pointwise min/max

---
 src/robust_semantics/minmax.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index adf3aea..3dc7560 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -41,7 +41,7 @@ SignalPtr compute_minmax_pair(
     if (comp(*i, *j)) {
       if (last_chosen == Chosen::Y) {
         double intercept_time = std::prev(j)->time_intersect(*std::prev(i));
-        if (intercept_time > out->end_time() && intercept_time != i->time) {
+        if (intercept_time > out->end_time() && intercept_time < i->time) {
           out->push_back(
               Sample{intercept_time, std::prev(j)->interpolate(intercept_time)});
         }
@@ -51,7 +51,7 @@ SignalPtr compute_minmax_pair(
     } else {
       if (last_chosen == Chosen::X) {
         double intercept_time = std::prev(i)->time_intersect(*std::prev(j));
-        if (intercept_time > out->end_time() && intercept_time != j->time) {
+        if (intercept_time > out->end_time() && intercept_time < j->time) {
           out->push_back(
               Sample{intercept_time, std::prev(i)->interpolate(intercept_time)});
         }
-- 
2.43.0


From 175bcee33b707301e5ad70a31b5f2294a52852e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 10/20] fix: always/eventually over an empty signal must not
 read past its end

---
 src/robust_semantics/minmax.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index 3dc7560..06ad1ac 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -90,6 +90,9 @@ compute_minmax_pair(const std::vector<SignalPtr>& xs, Compare comp, bool synchro
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
+  if (x->empty()) {
+    return std::make_shared<Signal>();
+  }
   auto opt = x->back();
   auto z   = std::vector<Sample>{};
   z.reserve(2 * x->size());
-- 
2.43.0


From 2583978266f86f80800348e477fbc9938749928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 11/20] fix: bounded always/eventually take the extremum over
 the window [t+a, t+b]

---
 src/robust_semantics/classic_robustness.cc |  8 +--
 src/robust_semantics/minmax.cc             | 60 ++++++++++------------
 2 files changed, 30 insertions(+), 38 deletions(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index d047c5a..55d9980 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -169,9 +169,7 @@ SignalPtr RobustnessOp::operator()(const ast::EventuallyPtr& e) const {
   const auto [a, b] = e->interval.as_double();
   if (b - a < 0) {
     throw std::logic_error("Eventually operator: b < a in interval [a,b]");
-  } else if (b - a == 0) {
-    return y;
-  } else if (b - a >= y->end_time() - y->begin_time()) {
+  } else if (a == 0 && b >= y->end_time() - y->begin_time()) {
     return compute_max_seq(y);
   } else {
     return compute_max_seq(y, a, b);
@@ -187,9 +185,7 @@ SignalPtr RobustnessOp::operator()(const ast::AlwaysPtr& e) const {
   const auto [a, b] = e->interval.as_double();
   if (b - a < 0) {
     throw std::logic_error("Always operator: b < a in interval [a,b]");
-  } else if (b - a == 0) {
-    return y;
-  } else if (b - a >= y->end_time() - y->begin_time()) {
+  } else if (a == 0 && b >= y->end_time() - y->begin_time()) {
     return compute_min_seq(y);
   } else {
     return compute_min_seq(y, a, b);
diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index 06ad1ac..b712039 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -109,42 +109,38 @@ SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, double a, double b, Compare comp) {
-  const auto width      = b - a;
-  const auto begin_time = x->begin_time();
-  const auto end_time   = x->end_time();
-
-  auto x_ = (a == 0)
-                ? x
-                : x->resize_shift(
-                      begin_time + width, end_time + width, x->back().value, -width);
-
-  auto z       = std::make_shared<Signal>();
-  auto samples = std::deque<Sample>{x_->begin(), x_->end()};
-  auto window  = std::deque<Sample>{};
-
-  auto i = std::begin(samples);
-  // -- Read in values in [0, width)
-  for (; i->time < x->begin_time() + width; i++) {
-    mono_wedge::mono_wedge_update(window, *i, comp);
-  }
+  auto z = std::make_shared<Signal>();
+
+  // The value of x at time t, where x holds its last value after its end.
+  const auto value_at = [&x](double t) {
+    return (t < x->end_time()) ? x->at(t).value : x->back().value;
+  };
+
+  // The candidates among the samples in the window [t + a, t + b], best one first.
+  auto window = std::deque<Sample>{};
+  auto next   = x->begin();
+
+  for (const auto& s : *x) {
+    const double lo = s.time + a;
+    const double hi = s.time + b;
+    for (; next != x->end() && next->time <= hi; next++) {
+      mono_wedge::mono_wedge_update(window, *next, comp);
+    }
+    while (!window.empty() && window.front().time < lo) { window.pop_front(); }
 
-  // -- Stream in the rest of the signal.
-  for (; i != samples.end(); i++) {
-    if (i->time - a > window.front().time) {
-      // Add the sample for time M.front + a
-      i = samples.insert(
-          i,
-          Sample{
-              window.front().time + a,
-              std::prev(i)->interpolate(window.front().time + a),
-              0.0});
+    // The window may begin and end between two samples.
+    auto opt        = Sample{lo, value_at(lo)};
+    const auto last = Sample{hi, value_at(hi)};
+    if (comp(last, opt)) {
+      opt = last;
+    }
+    if (!window.empty() && comp(window.front(), opt)) {
+      opt = window.front();
     }
-    mono_wedge::mono_wedge_update(window, *i, comp);
-    while (window.front().time <= i->time - a) { window.pop_front(); }
-    z->push_back(i->time, i->value);
+    z->push_back(s.time, opt.value);
   }
 
-  return z->simplify();
+  return z;
 }
 
 SignalPtr
-- 
2.43.0


From d4d3dcd8b2d9a47c87f6288b1a4517ad2484c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 12/20] fix: until was never false: compute the robustness of
 the strong until

---
 src/robust_semantics/classic_robustness.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index 55d9980..b04ad12 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -38,14 +38,12 @@ SignalPtr compute_until(const SignalPtr& input_x, const SignalPtr& input_y) {
 
   // TODO(anand): This doesn't handle crossing signals well...
 
-  double prev      = TOP;
-  double max_right = BOTTOM;
+  double prev = BOTTOM;
 
   for (auto [i, j] = std::make_tuple(x->rbegin(), y->rbegin());
        i != x->rend() && j != y->rend();
        i++, j++) {
-    max_right = std::max(max_right, j->value);
-    prev      = std::max({j->value, std::min(i->value, prev), -max_right});
+    prev = std::min(i->value, std::max(j->value, prev));
     sigstack.push_back({i->time, prev});
   }
   std::reverse(sigstack.begin(), sigstack.end());
-- 
2.43.0


From 78d65e364f1b8a2c7581b29facbb5774fb202b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 13/20] fix: constants can be evaluated on a trace that has a
 single instant

---
 src/robust_semantics/classic_robustness.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index b04ad12..44ac46b 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -104,7 +104,10 @@ SignalPtr compute_robustness(const ast::Expr& phi, const signal::Trace& trace, b
 
 SignalPtr RobustnessOp::operator()(const ast::Const e) const {
   const double val = (e.value) ? static_cast<double>(TOP) : static_cast<double>(BOTTOM);
-  auto samples     = std::vector<Sample>{{min_time, val, 0.0}, {max_time, val, 0.0}};
+  auto samples     = std::vector<Sample>{{min_time, val, 0.0}};
+  if (min_time != max_time) { // The trace may consist of a single instant.
+    samples.push_back({max_time, val, 0.0});
+  }
   return std::make_shared<Signal>(samples);
 }
 
-- 
2.43.0


From d529289bfbbc46989333f1796ffe03e69804fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 14/20] fix: combining a conjunction with false (disjunction
 with true) must not throw

---
 src/core/ast.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/ast.cc b/src/core/ast.cc
index dc66ac7..41e9472 100644
--- a/src/core/ast.cc
+++ b/src/core/ast.cc
@@ -46,6 +46,9 @@ Expr AndHelper(const AndPtr& lhs, const Expr& rhs) {
             args.insert(args.end(), e->args.begin(), e->args.end());
           }},
       rhs);
+  if (args.size() == 1) { // Only the constant is left
+    return args.front();
+  }
   return std::make_shared<And>(args);
 }
 
@@ -67,6 +70,9 @@ Expr OrHelper(const OrPtr& lhs, const Expr& rhs) {
             args.insert(args.end(), e->args.begin(), e->args.end());
           }},
       rhs);
+  if (args.size() == 1) { // Only the constant is left
+    return args.front();
+  }
   return std::make_shared<Or>(args);
 }
 
-- 
2.43.0


From c50ff42753d1d7b3a65b17236aa95f1152d47bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 15/20] fix: exactly one expression or command between a pair
 of parentheses

---
 src/parser/grammar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/grammar.hpp b/src/parser/grammar.hpp
index 847a0b6..b90937c 100644
--- a/src/parser/grammar.hpp
+++ b/src/parser/grammar.hpp
@@ -157,7 +157,7 @@ using Expression = peg::sor<
     UntilTerm,
     Term>;
 
-using TermTail = peg::until<RParen, Expression>;
+using TermTail = peg::seq<Expression, RParen>;
 struct Term : peg::sor<peg::if_must<LParen, TermTail>, BooleanLiteral, Identifier> {};
 
 struct Assertion : peg::if_must<KwAssert, Identifier, Term> {};
@@ -189,7 +189,7 @@ struct Command : peg::must<AllowedCommands> {};
 /// We will hard code the top level commands, like `define-formula` and
 /// `assert` as that will allow us to directly reason about them. A command is
 /// essentially intrinsic to the specification language.
-using AnyCommandTail = peg::until<RParen, Command>;
+using AnyCommandTail = peg::seq<Command, RParen>;
 struct AnyCommand : peg::if_must<LParen, AnyCommandTail> {};
 
 struct StatementList : peg::seq<Skip, peg::until<peg::eof, AnyCommand, Skip>> {};
-- 
2.43.0


From 3ab0ba421163540e7536c88af1f93d7d3f9040c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 16/20] fix: predicates of the form (op constant signal) can be
 parsed

---
 src/parser/actions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 4db8b4b..f224d20 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -209,7 +209,7 @@ struct action<PredicateTerm> {
 
     if (state.predicate_type == PredicateType::TWO) {
       // For Type TWO, we need to flip the direction of the comparison
-      switch (state.comparison_type.value()) {
+      switch (comparison_type) {
         case ast::ComparisonOp::LT:
           comparison_type = ast::ComparisonOp::GT;
           break;
-- 
2.43.0


From d542963256e01818d60b8c7def76a511e2573ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 17/20] fix: print half-open intervals of always and eventually
 as such

---
 src/include/signal_tl/fmt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/signal_tl/fmt.hpp b/src/include/signal_tl/fmt.hpp
index 31136fb..702d439 100644
--- a/src/include/signal_tl/fmt.hpp
+++ b/src/include/signal_tl/fmt.hpp
@@ -92,7 +92,7 @@ struct fmt::formatter<signal_tl::ast::Always>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "G[{}, int) {}", a, e.arg);
+        return format_to(ctx.out(), "G[{}, inf) {}", a, e.arg);
       }
       return format_to(ctx.out(), "G[{},{}] {}", a, b, e.arg);
     }
@@ -108,7 +108,7 @@ struct fmt::formatter<signal_tl::ast::Eventually>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "F[{}, inf] {}", a, e.arg);
+        return format_to(ctx.out(), "F[{}, inf) {}", a, e.arg);
       }
       return format_to(ctx.out(), "F[{},{}] {}", a, b, e.arg);
     }
-- 
2.43.0


From b522bc653073298bde245b53317ef5bf221a5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 18/20] fix: a term within redundant parentheses is that term

---
 src/parser/actions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index f224d20..b99ad92 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -437,6 +437,8 @@ struct action<Term> {
       // Copy the pointer to the formula with the corresponding id
       state.terms.push_back(global_state.formulas.at(state.identifiers.back()));
       state.identifiers.pop_back();
+    } else if (!state.terms.empty()) {
+      // A Term within parentheses. It is already in the vector of terms.
     } else {
       // Otherwise, it doesn't make sense that there are no results, as this
       // means that the parser failed. This should be unreachable.
-- 
2.43.0


From 9dbc2498fb142ca6a061dc951c1898bdfe2a3187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 19/20] fix: reject specifications nested too deeply instead of
 exhausting the stack

---
 src/parser/actions.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index b99ad92..4f39984 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -29,6 +29,10 @@ using PrimitiveState = std::variant<bool, long int, double>;
 
 enum struct PredicateType { ONE, TWO };
 
+/// How deeply Terms can be nested. Parsing is recursive, and thus deeper inputs could
+/// exhaust the stack.
+constexpr unsigned long long int MaxNestingLevel = 1000;
+
 /// This encodes local state of the push-down parser.
 ///
 /// Essentially, this is a stack element, and a new one is pushed down
@@ -400,6 +404,9 @@ struct action<Term> {
     // Create a new layer on the stack
     ParserState new_local_state{};
     new_local_state.level = state.level + 1;
+    if (new_local_state.level > MaxNestingLevel) {
+      throw peg::parse_error("terms are nested too deeply", in);
+    }
 
     // Parse the input with the new state.
     bool ret = tao::pegtl::match<Rule, A, M, Action, Control>(
-- 
2.43.0


From 8b0dcab67a5f6fc5d1e0516ddca81978c45ccf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 20/20] fix: print until in parentheses so that different
 formulas print differently

---
 src/include/signal_tl/fmt.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/signal_tl/fmt.hpp b/src/include/signal_tl/fmt.hpp
index 702d439..41f64b7 100644
--- a/src/include/signal_tl/fmt.hpp
+++ b/src/include/signal_tl/fmt.hpp
@@ -125,11 +125,11 @@ struct fmt::formatter<signal_tl::ast::Until>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "{} U[{}, inf) {}", e1, a, e2);
+        return format_to(ctx.out(), "({} U[{}, inf) {})", e1, a, e2);
       }
-      return format_to(ctx.out(), "{} U[{},{}] {}", e1, a, b, e2);
+      return format_to(ctx.out(), "({} U[{},{}] {})", e1, a, b, e2);
     }
-    return format_to(ctx.out(), "{} U {}", e1, e2);
+    return format_to(ctx.out(), "({} U {})", e1, e2);
   }
 };
 
-- 
2.43.0


From c7764f2271e63ba41671c94a3339baf79cdb0bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 1/7] fix: the runner takes the unobservable transition enabled
 first

---
 include/timed_automaton_runner.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/timed_automaton_runner.hh b/include/timed_automaton_runner.hh
index e42d1ae..3ff3987 100644
--- a/include/timed_automaton_runner.hh
+++ b/include/timed_automaton_runner.hh
@@ -125,7 +125,8 @@ namespace learnta {
           minDuration = lowerBoundDurationToSatisfy(unobservableIt->second.front().guard, this->clockValuation);
           candidateTransition = unobservableIt->second.begin();
         } else {
-          candidateTransition = std::min_element(unobservableIt->second.begin(), unobservableIt->second.end(),
+          // The durations are negated: the transition enabled first has the maximum one
+          candidateTransition = std::max_element(unobservableIt->second.begin(), unobservableIt->second.end(),
                                                  [&](const auto &a, const auto &b) {
                                                    return lowerBoundDurationToSatisfy(a.guard, this->clockValuation) <
                                                           lowerBoundDurationToSatisfy(b.guard, this->clockValuation);
-- 
2.43.0


From 40f01ad81f11133033ed838ca72d8de1cece872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 2/7] fix: a strict upper bound is not satisfied at its
 constant

---
 include/constraint.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 77f850a..b801470 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -114,7 +114,7 @@ namespace learnta {
         case Order::lt:
         case Order::le:
           // Bounded from above
-          return valuation.at(this->x) <= this->c ? Bounds{0.0, true} :
+          return this->satisfy(valuation.at(this->x)) ? Bounds{0.0, true} :
                  Bounds{-std::numeric_limits<double>::infinity(), false};
         case Order::ge:
           // Bounded from below
-- 
2.43.0


From 59aae17a268dc48d5975ba24dd0e22643feea6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 3/7] fix: a guard is unsatisfiable if the required duration
 exceeds its upper bounds

---
 include/constraint.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index b801470..8bfcaa4 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -368,7 +368,15 @@ namespace learnta {
       return constraint.lowerBoundDurationToSatisfy(valuation);
     });
 
-    return *std::min_element(lowerBoundDurations.begin(), lowerBoundDurations.end());
+    const Bounds result = *std::min_element(lowerBoundDurations.begin(), lowerBoundDurations.end());
+    // The constraints bounding from above must still hold after the duration
+    const bool reachable = std::all_of(guard.begin(), guard.end(), [&](const auto &constraint) {
+      const double longestDuration = constraint.c - valuation.at(constraint.x);
+      return !constraint.isUpperBound() || -result.first < longestDuration ||
+             (-result.first == longestDuration && result.second && constraint.odr == Constraint::Order::le);
+    });
+
+    return reachable ? result : Bounds{-std::numeric_limits<double>::infinity(), false};
   }
 
   static inline std::ostream &operator<<(std::ostream &os, const std::vector<Constraint> &guards) {
-- 
2.43.0


From b60e8af087a7b4aec0f905d99ed09d9c12d0d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 4/7] fix: an empty guard needs no duration to be satisfied

---
 include/constraint.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 8bfcaa4..ab2c115 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -362,8 +362,9 @@ namespace learnta {
 
   [[nodiscard]] inline Bounds lowerBoundDurationToSatisfy(const std::vector<Constraint> &guard,
                                                           const std::vector<double> &valuation) {
-    std::vector<Bounds> lowerBoundDurations;
-    lowerBoundDurations.reserve(guard.size());
+    // No duration is necessary without constraints
+    std::vector<Bounds> lowerBoundDurations = {Bounds{0.0, true}};
+    lowerBoundDurations.reserve(guard.size() + 1);
     std::transform(guard.begin(), guard.end(), std::back_inserter(lowerBoundDurations), [&](const auto &constraint) {
       return constraint.lowerBoundDurationToSatisfy(valuation);
     });
-- 
2.43.0


From c3b14ebf5561fdb11490c4b34f30ec15a4210df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:55 +0000
Subject: [PATCH 5/7] fix: Zone::sample picked a lower limit excluded by a
 strict difference bound

---
 include/zone.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/zone.hh b/include/zone.hh
index 63239db..58b43f0 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -237,14 +237,19 @@ namespace learnta {
         } else {
           double lower = std::max(0.0, -lowerBound.first);
           double upper = upperBound.first;
+          // If the lower limit itself is allowed
+          bool closed = lowerBound.second;
           for (std::size_t j = 0; j < i; j++) {
             Bounds tmpLowerBound = this->value(j + 1, i + 1);
             Bounds tmpUpperBound = this->value(i + 1, j + 1);
+            if (-tmpLowerBound.first + valuation[j] >= lower && !tmpLowerBound.second) {
+              closed = false;
+            }
             lower = std::max(lower, -tmpLowerBound.first + valuation[j]);
             upper = std::min(upper, tmpUpperBound.first + valuation[j]);
           }
           assert(lower <= upper);
-          if (lowerBound.second) {
+          if (closed) {
             valuation[i] = lower;
           } else if (upper - lower > 0.5) {
             valuation[i] = lower + 0.5;
-- 
2.43.0


From 65ecff728735680b6070aa4de6a0319a408e3e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:14 +0000
Subject: [PATCH 6/7] fix: Zone resets evaluate simultaneous renamings with the
 values before the reset

---
 include/zone.hh | 58 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 58b43f0..ccfd805 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -3,6 +3,10 @@
 #include <cmath>
 #include <limits>
 #include <algorithm>
+#include <numeric>
+#include <optional>
+#include <variant>
+#include <vector>
 #include <unordered_map>
 #include <boost/unordered_map.hpp>
 #include <boost/range/adaptor/reversed.hpp>
@@ -130,13 +134,22 @@ namespace learnta {
     }
 
     void applyResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      // We apply renaming first
+      // We apply renaming first. The renamed variables refer to the values before the resets
+      const auto original = this->value;
+      std::vector<std::size_t> source(original.rows());
+      std::iota(source.begin(), source.end(), 0);
       for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          this->unconstrain(resetVariable);
-          this->value(resetVariable + 1, std::get<ClockVariables>(updatedVariable) + 1) = Bounds{0.0, true};
-          this->value(std::get<ClockVariables>(updatedVariable) + 1, resetVariable + 1) = Bounds{0.0, true};
-          canonize();
+        if (updatedVariable.index() == 1) {
+          source.at(resetVariable + 1) = std::get<ClockVariables>(updatedVariable) + 1;
+        }
+      }
+      for (std::size_t i = 0; i < source.size(); ++i) {
+        for (std::size_t j = 0; j < source.size(); ++j) {
+          if (i != j && source.at(i) == source.at(j)) {
+            this->value(i, j) = Bounds{0.0, true};
+          } else {
+            this->value(i, j) = original(source.at(i), source.at(j));
+          }
         }
       }
       // Then, assign a value
@@ -156,24 +169,31 @@ namespace learnta {
      * In addition to unconstrain the updated variables, we use the renaming information
      */
     void revertResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      std::vector<ClockVariables> resetVariables;
-      resetVariables.reserve(resets.size());
-      std::unordered_map<ClockVariables, ClockVariables> reverseAssignments;
+      // A constraint on the updated variables constrains the variables they are assigned from, if any
+      const auto original = this->value;
+      std::vector<std::optional<std::size_t>> source;
+      source.reserve(original.rows());
+      for (std::size_t i = 0; i < static_cast<std::size_t>(original.rows()); ++i) {
+        source.emplace_back(i);
+      }
       for (const auto &[resetVariable, updatedVariable]: resets) {
-        resetVariables.push_back(resetVariable);
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          reverseAssignments[std::get<ClockVariables>(updatedVariable)] = resetVariable;
+        if (updatedVariable.index() == 1) {
+          source.at(resetVariable + 1) = std::get<ClockVariables>(updatedVariable) + 1;
+        } else {
+          source.at(resetVariable + 1) = std::nullopt;
         }
       }
-      for (const auto &resetVariable: boost::adaptors::reverse(resetVariables)) {
-        this->unconstrain(resetVariable);
-        auto it = reverseAssignments.find(resetVariable);
-        if (it != reverseAssignments.end()) {
-          this->value(it->first + 1, it->second + 1) = Bounds{0.0, true};
-          this->value(it->second + 1, it->first + 1) = Bounds{0.0, true};
+      this->value.fill(Bounds{std::numeric_limits<double>::max(), false});
+      this->value.diagonal().fill(Bounds{0.0, true});
+      for (std::size_t i = 0; i < source.size(); ++i) {
+        for (std::size_t j = 0; j < source.size(); ++j) {
+          if (source.at(i) && source.at(j)) {
+            auto &bound = this->value(*source.at(i), *source.at(j));
+            bound = std::min(bound, original(i, j));
+          }
         }
-        canonize();
       }
+      canonize();
     }
 
     /*!
-- 
2.43.0


From 8a23800f336d119d27dfd01ed4e9fd09aecda78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:36 +0000
Subject: [PATCH 7/7] fix: the complement misses the letters without transition
 in a state with guarded unobservable transitions

---
 include/timed_automaton.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/timed_automaton.hh b/include/timed_automaton.hh
index ea0011a..5cee605 100644
--- a/include/timed_automaton.hh
+++ b/include/timed_automaton.hh
@@ -299,10 +299,10 @@ namespace learnta {
             // If the transition is empty, we make a transition to the sink state
             state->next[action].emplace_back();
             state->next.at(action).back().target = this->states.back().get();
-          } else if (state->next.find(action) != state->next.end() && !state->next.at(action).empty()) {
+          } else {
             // Take the union of the guards and complement it to obtain the condition to get stuck
             std::vector<std::vector<Constraint>> disjunctiveGuard = disjunctiveGuardOfUnobservable;
-            disjunctiveGuard.reserve(state->next.at(action).size());
+            disjunctiveGuard.reserve(state->next[action].size());
             for (const auto &transition: state->next.at(action)) {
               if (transition.guard.empty()) {
                 disjunctiveGuard.clear();
-- 
2.43.0


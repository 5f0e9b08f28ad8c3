From 47c94cc6657017d1d9a558b10ece27c48640f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 1/8] fix: complement of signed fractions no longer overflows

---
 src/fixed_point/types.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fixed_point/types.rs b/src/fixed_point/types.rs
index 85a6b2f..d0cd5bf 100644
--- a/src/fixed_point/types.rs
+++ b/src/fixed_point/types.rs
@@ -123,7 +123,9 @@ impl FractOnlyI32 {
 
     /// Returns: (1 - self)
     pub fn flip(&self) -> Self {
-        Self::ONE_UNSAFE.sub(self)
+        // 1.0 itself is out of range and ONE_UNSAFE wraps to a negative raw value
+        let flipped_raw = Self::ONE_UNSAFE.raw().wrapping_sub(self.raw());
+        Self::new(flipped_raw, Self::FRACTIONAL_BITS)
     }
 
     pub fn to_unsigned(&self) -> FractOnlyU32 {
@@ -177,7 +179,9 @@ impl FractOnlyI64 {
 
     /// Returns: (1 - self)
     pub fn flip(&self) -> Self {
-        Self::ONE_UNSAFE.sub(self)
+        // 1.0 itself is out of range and ONE_UNSAFE wraps to a negative raw value
+        let flipped_raw = Self::ONE_UNSAFE.raw().wrapping_sub(self.raw());
+        Self::new(flipped_raw, Self::FRACTIONAL_BITS)
     }
 
     pub fn to_unsigned(&self) -> FractOnlyU64 {
-- 
2.43.0


From 377d2e94f056c7f60ee845b8415e91ba6d2188e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 2/8] fix: listing suffixes of an empty window does not panic

---
 src/history/window.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/history/window.rs b/src/history/window.rs
index ef965a5..67c3ee0 100644
--- a/src/history/window.rs
+++ b/src/history/window.rs
@@ -180,7 +180,9 @@ impl InputWindow {
 
     pub fn for_each_suffix<F: Fn(WindowIndex) -> ()>(&self, action: F) {
         let suffices_range =
-            if self.size == 0 || self.start.value <= self.cursor.value {
+            if self.size == 0 {
+                (0..0).chain(0..0)
+            } else if self.start.value <= self.cursor.value {
                 (self.start.value..self.cursor.value + 1).chain(0..0)
             } else {
                 (self.start.value..self.max_size)
-- 
2.43.0


From 273a9be511a4030df5403202b6546d5ac66ab4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 3/8] fix: estimator updates never round to certainty

---
 src/estimators/decelerating.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estimators/decelerating.rs b/src/estimators/decelerating.rs
index 5730d8d..fa800c7 100644
--- a/src/estimators/decelerating.rs
+++ b/src/estimators/decelerating.rs
@@ -84,6 +84,9 @@ impl DeceleratingEstimator {
         prediction = fix_i64::scaled_down(
             prediction, prediction_bits + factor_bits - Self::PREDICTION_BITS);
         prediction += 1i64 << (Self::PREDICTION_BITS - 1);
+        // rounding must not reach certainty (0 or 1, the latter wraps around)
+        let prediction =
+            prediction.max(1).min((1i64 << Self::PREDICTION_BITS) - 1);
         let prediction = (prediction as u32) << Self::COUNT_BITS;
         let count = (count + 1).min(Self::MAX_COUNT) as u32;
         self.0 = prediction | count;
-- 
2.43.0


From fc3a7d3d34894af48f01c9acec21a05232a6490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 4/8] fix: refining between two saturated stops must not reach
 certainty

---
 src/mixing/apm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mixing/apm.rs b/src/mixing/apm.rs
index b73f0bd..4546c02 100644
--- a/src/mixing/apm.rs
+++ b/src/mixing/apm.rs
@@ -126,7 +126,10 @@ impl AdaptiveProbabilityMap {
             &right_bound, &weight_right);
         let result_left: FractOnlyU32 = fix_u32::mul(
             &left_bound, &weight_left);
-        result_left.add(&result_right)
+        // both products may be rounded up, but certainty is never reached
+        let result_raw = (result_left.raw() + result_right.raw())
+            .min(FractOnlyU32::ONE_UNSAFE.raw() - 1);
+        FractOnlyU32::new(result_raw, 31)
     }
 
     pub fn update_predictions(&mut self, context: usize, input_bit: Bit,
-- 
2.43.0


From 807d0ca3059107479cf71f228e30eac4675d0de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 5/8] fix: history sources refuse to look or take bits outside
 a started byte

---
 src/history/fat_map.rs | 7 +++++++
 src/history/naive.rs   | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/history/fat_map.rs b/src/history/fat_map.rs
index 437e22d..5cefcfc 100644
--- a/src/history/fat_map.rs
+++ b/src/history/fat_map.rs
@@ -33,6 +33,7 @@ pub struct FatMapHistorySource<'a> {
     luts: &'a LookUpTables,
     input: InputWindow,
     bit_index: usize,
+    byte_started: bool,
     max_order: usize,
     maps: Vec<HashMap<u64, Vec<ContextState>>>,
 }
@@ -59,20 +60,24 @@ impl<'a> HistorySource<'a> for FatMapHistorySource<'a> {
             luts,
             input: InputWindow::new(max_window_size, 0),
             bit_index: 7,
+            byte_started: false,
             max_order,
             maps: vec![HashMap::new(); (max_order + 1) * 8],
         }
     }
 
     fn start_new_byte(&mut self) {
+        assert!(!self.byte_started);
         assert_eq!(self.bit_index, 7);
         assert_ne!(self.input.size(), self.input.max_size(),
                    "input window is filled up, but sliding is not implemented");
         self.input.advance_cursor();
+        self.byte_started = true;
     }
 
     fn gather_history_states(&self,
                              bit_histories: &mut CollectedContextStates) {
+        assert!(self.byte_started);
         for order in 0..(self.max_order.min(self.input.cursor().raw()) + 1) {
             let map = &self.maps[(order * 8) + self.bit_index];
             let hash = self.compute_hash(order);
@@ -105,6 +110,7 @@ impl<'a> HistorySource<'a> for FatMapHistorySource<'a> {
 
     fn process_input_bit(&mut self, input_bit: Bit,
                          new_cost_trackers: &[CostTrackers]) {
+        assert!(self.byte_started);
         for order in 0..(self.max_order.min(self.input.cursor().raw()) + 1) {
             let hash = self.compute_hash(order);
             let map = &mut self.maps[(order * 8) + self.bit_index];
@@ -144,6 +150,7 @@ impl<'a> HistorySource<'a> for FatMapHistorySource<'a> {
             self.bit_index -= 1;
         } else {
             self.bit_index = 7;
+            self.byte_started = false;
         }
     }
 }
diff --git a/src/history/naive.rs b/src/history/naive.rs
index 62f46c1..ddf0bb4 100644
--- a/src/history/naive.rs
+++ b/src/history/naive.rs
@@ -51,6 +51,7 @@ impl<'a> HistorySource<'a> for NaiveHistorySource<'a> {
 
     fn gather_history_states(&self,
                              bit_histories: &mut CollectedContextStates) {
+        assert!(self.bit_index >= 0);
         for order in 0..(self.max_order + 1) {
             let mut last_context_state_opt: Option<ContextState> = None;
             let stop_search_position =
@@ -94,6 +95,7 @@ impl<'a> HistorySource<'a> for NaiveHistorySource<'a> {
 
     fn process_input_bit(&mut self, input_bit: Bit,
                          new_cost_trackers: &[CostTrackers]) {
+        assert!(self.bit_index >= 0);
         assert!(new_cost_trackers.iter().all(|c| *c == CostTrackers::DEFAULT),
                 "cost tracking is unsupported in this history source");
         self.input.set_bit_at_cursor(input_bit, self.bit_index as usize);
-- 
2.43.0


From 8a3a31d3b6063bae8690b66aa31b7044ca42b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 6/8] fix: count the cost of bits coded without any context in
 the totals

---
 src/predictor/stats.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/predictor/stats.rs b/src/predictor/stats.rs
index 8c18c45..4713732 100644
--- a/src/predictor/stats.rs
+++ b/src/predictor/stats.rs
@@ -77,6 +77,11 @@ impl<'a> PredictionStatistics<'a> {
         let contexts_count = contexts.items().len();
         self.total_contexts_count += contexts_count as u64;
 
+        let bit_cost = final_probability
+            .estimate_cost(input_bit, &self.luts.log2_lut()).to_fix_i64();
+        self.current_byte_cost = self.current_byte_cost.add(&bit_cost);
+        self.total_cost = self.total_cost.add(&bit_cost);
+
         if contexts_count > 0 {
             let max_order = contexts_count - 1;
             let stats_index = {
@@ -86,10 +91,6 @@ impl<'a> PredictionStatistics<'a> {
                 orders * 5 + unary_orders
             };
             self.per_order_counts[stats_index] += 1;
-            let bit_cost = final_probability
-                .estimate_cost(input_bit, &self.luts.log2_lut()).to_fix_i64();
-            self.current_byte_cost = self.current_byte_cost.add(&bit_cost);
-            self.total_cost = self.total_cost.add(&bit_cost);
             self.per_order_costs[stats_index] =
                 self.per_order_costs[stats_index].add(&bit_cost);
             self.per_order_occurrences_count[stats_index] +=
-- 
2.43.0


From e35b2eef798303961c58ba0c944dcba26f4276e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 7/8] fix: count a symbol when its last bit arrives, so the
 last byte is not left out

---
 src/predictor/stats.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/predictor/stats.rs b/src/predictor/stats.rs
index 4713732..0c07718 100644
--- a/src/predictor/stats.rs
+++ b/src/predictor/stats.rs
@@ -38,6 +38,7 @@ pub struct PredictionStatistics<'a> {
     per_order_costs: Vec<Log2Q>,
     per_symbol_counts: Vec<usize>,
     per_symbol_costs: Vec<Log2Q>,
+    current_byte: usize,
     current_byte_cost: Log2Q,
     total_cost: Log2Q,
     per_order_occurrences_count: Vec<u64>,
@@ -53,6 +54,7 @@ impl<'a> PredictionStatistics<'a> {
             per_order_costs: vec![Log2Q::new_unchecked(0); 5 * 5],
             per_symbol_counts: vec![0; 256],
             per_symbol_costs: vec![Log2Q::new_unchecked(0); 256],
+            current_byte: 1,
             current_byte_cost: Log2Q::new_unchecked(<i64>::max_value()),
             total_cost: Log2Q::new_unchecked(0),
             per_order_occurrences_count: vec![0; 5 * (max_order + 1)],
@@ -61,12 +63,7 @@ impl<'a> PredictionStatistics<'a> {
 
     pub fn start_new_byte(&mut self, last_bytes: &LastBytesCache) {
         assert_eq!(last_bytes.unfinished_byte(), UnfinishedByte::EMPTY);
-        if self.total_bytes > 0 {
-            let last_byte = last_bytes.previous_byte_1() as usize;
-            self.per_symbol_counts[last_byte] += 1;
-            self.per_symbol_costs[last_byte] = self.per_symbol_costs[last_byte]
-                .add(&self.current_byte_cost);
-        }
+        self.current_byte = 1;
         self.current_byte_cost = Log2Q::new_unchecked(0);
         self.total_bytes += 1;
     }
@@ -82,6 +79,14 @@ impl<'a> PredictionStatistics<'a> {
         self.current_byte_cost = self.current_byte_cost.add(&bit_cost);
         self.total_cost = self.total_cost.add(&bit_cost);
 
+        self.current_byte = self.current_byte * 2 + input_bit.to_u16() as usize;
+        if self.current_byte > 255 {
+            let symbol = self.current_byte & 255;
+            self.per_symbol_counts[symbol] += 1;
+            self.per_symbol_costs[symbol] = self.per_symbol_costs[symbol]
+                .add(&self.current_byte_cost);
+        }
+
         if contexts_count > 0 {
             let max_order = contexts_count - 1;
             let stats_index = {
-- 
2.43.0


From a5bb8d657a7c36ac1e40a5086a2d1a5280b8e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 8/8] fix: print the (empty) histories of an empty file

---
 src/bin/print_histories.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/print_histories.rs b/src/bin/print_histories.rs
index 61b66c4..b5f4331 100644
--- a/src/bin/print_histories.rs
+++ b/src/bin/print_histories.rs
@@ -54,7 +54,8 @@ fn main() {
 fn print_bit_histories<'a, Source: HistorySource<'a>>(input: &[u8],
                                                       luts: &'a LookUpTables) {
     let mut collected_states = CollectedContextStates::new(MAX_ORDER);
-    let mut history_source = Source::new(input.len(), MAX_ORDER, &luts);
+    let mut history_source = Source::new(input.len().max(1),
+                                         MAX_ORDER, &luts);
     for (i, &x) in input.iter().take(1234).enumerate() {
         println!("Processing byte with index: {}, {}", i, x as char);
         history_source.start_new_byte();
-- 
2.43.0


From f4270219647d83da4f3348df5dc3f3796802a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 01/21] fix: do not panic if the maximum age of observations
 exceeds the range of Instant

---
 src/processor.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/processor.rs b/src/processor.rs
index cad49c7..83dfcf6 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -127,9 +127,13 @@ impl ProcessingStrategy {
             ProcessingStrategy::DropOlderThan {
                 max_age,
                 drop_deltas,
-            } => ProcessingDecider::DropBeforeDeadline {
-                drop_if_older_than: Instant::now() - max_age,
-                drop_deltas,
+            } => match Instant::now().checked_sub(max_age) {
+                Some(drop_if_older_than) => ProcessingDecider::DropBeforeDeadline {
+                    drop_if_older_than,
+                    drop_deltas,
+                },
+                // There can not be anything older than that
+                None => ProcessingDecider::ProcessAll,
             },
         }
     }
-- 
2.43.0


From 04ce121650b2e1c26e1f2cbdf8241535c4d36eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 02/21] fix: saturate when converting a Duration to an
 ObservedValue

---
 src/observation.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/observation.rs b/src/observation.rs
index 19f93c1..3ebb423 100644
--- a/src/observation.rs
+++ b/src/observation.rs
@@ -182,8 +182,7 @@ impl From<bool> for ObservedValue {
 
 impl From<Duration> for ObservedValue {
     fn from(v: Duration) -> Self {
-        let nanos = (v.as_secs() * 1_000_000_000) + (v.subsec_nanos() as u64);
-        ObservedValue::Duration(nanos, TimeUnit::Nanoseconds)
+        (v, TimeUnit::Nanoseconds).into()
     }
 }
 
@@ -194,26 +193,25 @@ impl From<(u64, TimeUnit)> for ObservedValue {
 }
 
 impl From<(Duration, TimeUnit)> for ObservedValue {
+    /// The value saturates if the `Duration` does not fit.
     fn from(d: (Duration, TimeUnit)) -> Self {
-        match d.1 {
-            TimeUnit::Nanoseconds => {
-                let nanos = (d.0.as_secs() * 1_000_000_000) + (d.0.subsec_nanos() as u64);
-                (nanos, d.1).into()
-            }
-            TimeUnit::Microseconds => {
-                let micros = (d.0.as_secs() * 1_000_000) + (d.0.subsec_nanos() as u64 / 1_000);
-
-                (micros, d.1).into()
-            }
-            TimeUnit::Milliseconds => {
-                let millis = (d.0.as_secs() * 1_000) + (d.0.subsec_nanos() as u64 / 1_000_000);
-                (millis, d.1).into()
-            }
-            TimeUnit::Seconds => (d.0.as_secs(), d.1).into(),
-        }
+        let time = match d.1 {
+            TimeUnit::Nanoseconds => saturating_time(d.0, 1_000_000_000),
+            TimeUnit::Microseconds => saturating_time(d.0, 1_000_000),
+            TimeUnit::Milliseconds => saturating_time(d.0, 1_000),
+            TimeUnit::Seconds => d.0.as_secs(),
+        };
+        (time, d.1).into()
     }
 }
 
+fn saturating_time(d: Duration, units_per_second: u32) -> u64 {
+    let subsec_units = d.subsec_nanos() / (1_000_000_000 / units_per_second);
+    d.as_secs()
+        .saturating_mul(units_per_second.into())
+        .saturating_add(subsec_units.into())
+}
+
 impl From<super::Increment> for ObservedValue {
     fn from(_: super::Increment) -> Self {
         ObservedValue::ChangedBy(1)
-- 
2.43.0


From f4b213d61248f5bc6c4ccead6c08cb2d10ee8c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 03/21] fix: do not convert floats that are out of range to
 integers

---
 src/observation.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/observation.rs b/src/observation.rs
index 3ebb423..00b526a 100644
--- a/src/observation.rs
+++ b/src/observation.rs
@@ -255,8 +255,10 @@ impl ObservedValue {
                 }
             }
             ObservedValue::Float(v) => {
-                if v <= std::i64::MAX as f64 {
-                    Some(v.round() as i64)
+                let v = v.round();
+                // `i64::MAX as f64` is 2^63 which does not fit
+                if v >= std::i64::MIN as f64 && v < std::i64::MAX as f64 {
+                    Some(v as i64)
                 } else {
                     None
                 }
@@ -279,8 +281,10 @@ impl ObservedValue {
             }
             ObservedValue::UnsignedInteger(v) => Some(v),
             ObservedValue::Float(v) => {
-                if v <= std::u64::MAX as f64 {
-                    Some(v.round() as u64)
+                let v = v.round();
+                // `u64::MAX as f64` is 2^64 which does not fit
+                if v >= 0.0 && v < std::u64::MAX as f64 {
+                    Some(v as u64)
                 } else {
                     None
                 }
-- 
2.43.0


From 7a83005f9ccc61fb2c0ec998721e22834a8e3c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 04/21] fix: saturate the counter instead of overflowing

---
 src/instruments/counter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instruments/counter.rs b/src/instruments/counter.rs
index ff08486..62aad01 100644
--- a/src/instruments/counter.rs
+++ b/src/instruments/counter.rs
@@ -78,12 +78,12 @@ impl Counter {
 
     /// Increase the stored value by one.
     pub fn inc(&mut self) {
-        self.count += 1;
+        self.inc_by(1);
     }
 
     /// Increase the stored value by `n`
     pub fn inc_by(&mut self, n: u64) {
-        self.count += n;
+        self.count = self.count.saturating_add(n);
     }
 
     /// Get the current value
-- 
2.43.0


From eabd004d4885f91c5e868b7e67271f63e4aa5fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 05/21] fix: saturate when scaling a duration to the display
 time unit

---
 src/instruments/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/instruments/mod.rs b/src/instruments/mod.rs
index 87bf567..e0e573c 100644
--- a/src/instruments/mod.rs
+++ b/src/instruments/mod.rs
@@ -129,17 +129,17 @@ fn duration_to_display_value(time: u64, current_unit: TimeUnit, target_unit: Tim
         (Nanoseconds, Microseconds) => time / 1_000,
         (Nanoseconds, Milliseconds) => time / 1_000_000,
         (Nanoseconds, Seconds) => time / 1_000_000_000,
-        (Microseconds, Nanoseconds) => time * 1_000,
+        (Microseconds, Nanoseconds) => time.saturating_mul(1_000),
         (Microseconds, Microseconds) => time,
         (Microseconds, Milliseconds) => time / 1_000,
         (Microseconds, Seconds) => time / 1_000_000,
-        (Milliseconds, Nanoseconds) => time * 1_000_000,
-        (Milliseconds, Microseconds) => time * 1_000,
+        (Milliseconds, Nanoseconds) => time.saturating_mul(1_000_000),
+        (Milliseconds, Microseconds) => time.saturating_mul(1_000),
         (Milliseconds, Milliseconds) => time,
         (Milliseconds, Seconds) => time / 1_000,
-        (Seconds, Nanoseconds) => time * 1_000_000_000,
-        (Seconds, Microseconds) => time * 1_000_000,
-        (Seconds, Milliseconds) => time * 1_000,
+        (Seconds, Nanoseconds) => time.saturating_mul(1_000_000_000),
+        (Seconds, Microseconds) => time.saturating_mul(1_000_000),
+        (Seconds, Milliseconds) => time.saturating_mul(1_000),
         (Seconds, Seconds) => time,
     }
 }
-- 
2.43.0


From 58528e289ffae4c607f2ed6999e0e76bc0256012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 06/21] fix: do not turn durations that exceed i64::MAX into
 negative values

---
 src/instruments/gauge/mod.rs                     | 2 +-
 src/instruments/histogram.rs                     | 3 ++-
 src/instruments/other_instruments/value_meter.rs | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/instruments/gauge/mod.rs b/src/instruments/gauge/mod.rs
index 6f92fef..c291681 100644
--- a/src/instruments/gauge/mod.rs
+++ b/src/instruments/gauge/mod.rs
@@ -349,7 +349,7 @@ impl Gauge {
             ObservedValue::ChangedBy(d) => current.map(|c| c + d).or_else(|| Some(d)),
             ObservedValue::Duration(time, unit) => {
                 let value = super::duration_to_display_value(time, unit, self.display_time_unit);
-                Some(value as i64)
+                Some(std::cmp::min(value, std::i64::MAX as u64) as i64)
             }
             x => x.convert_to_i64().or_else(|| current),
         }
diff --git a/src/instruments/histogram.rs b/src/instruments/histogram.rs
index cd195e4..eebb658 100644
--- a/src/instruments/histogram.rs
+++ b/src/instruments/histogram.rs
@@ -256,7 +256,8 @@ impl Updates for Histogram {
         match *with {
             Update::ObservationWithValue(ObservedValue::Duration(time, time_unit), _timestamp) => {
                 let d = super::duration_to_display_value(time, time_unit, self.display_time_unit);
-                self.inner_histogram.update(d as i64);
+                self.inner_histogram
+                    .update(std::cmp::min(d, std::i64::MAX as u64) as i64);
                 self.last_update = Instant::now();
 
                 1
diff --git a/src/instruments/other_instruments/value_meter.rs b/src/instruments/other_instruments/value_meter.rs
index db3e2b9..12b170c 100644
--- a/src/instruments/other_instruments/value_meter.rs
+++ b/src/instruments/other_instruments/value_meter.rs
@@ -258,7 +258,8 @@ impl Updates for ValueMeter {
                 ObservedValue::Duration(time, unit) => {
                     let v =
                         super::super::duration_to_display_value(time, unit, self.display_time_unit);
-                    self.inner_meter.mark(v as i64);
+                    self.inner_meter
+                        .mark(std::cmp::min(v, std::i64::MAX as u64) as i64);
 
                     1
                 }
-- 
2.43.0


From 80725e081b14576194c11556c01717b4546d17c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 07/21] fix: saturate the gauge when a delta exceeds its range

---
 src/instruments/gauge/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instruments/gauge/mod.rs b/src/instruments/gauge/mod.rs
index c291681..07af2a1 100644
--- a/src/instruments/gauge/mod.rs
+++ b/src/instruments/gauge/mod.rs
@@ -346,7 +346,9 @@ impl Gauge {
 
     fn next_value(&self, current: Option<i64>, observed: ObservedValue) -> Option<i64> {
         match observed {
-            ObservedValue::ChangedBy(d) => current.map(|c| c + d).or_else(|| Some(d)),
+            ObservedValue::ChangedBy(d) => current
+                .map(|c| c.saturating_add(d))
+                .or_else(|| Some(d)),
             ObservedValue::Duration(time, unit) => {
                 let value = super::duration_to_display_value(time, unit, self.display_time_unit);
                 Some(std::cmp::min(value, std::i64::MAX as u64) as i64)
-- 
2.43.0


From 9991068756f029e6b96cdab811b66249b22c879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 08/21] fix: do not overflow when summing up the values tracked
 by a gauge

---
 src/instruments/gauge/tracking.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/instruments/gauge/tracking.rs b/src/instruments/gauge/tracking.rs
index 6fd58eb..ed8b260 100644
--- a/src/instruments/gauge/tracking.rs
+++ b/src/instruments/gauge/tracking.rs
@@ -3,7 +3,7 @@ use crate::snapshot::Snapshot;
 
 #[derive(Default)]
 pub struct Bucket {
-    pub sum: i64,
+    pub sum: i128,
     pub count: u64,
     pub min_max: (i64, i64),
 }
@@ -16,7 +16,7 @@ impl Bucket {
         } else {
             (v, v)
         };
-        self.sum += v;
+        self.sum += i128::from(v);
         self.count += 1;
     }
 }
@@ -41,9 +41,9 @@ impl BucketsStats {
         let mut peak_min = std::i64::MAX;
         let mut bottom = std::i64::MAX;
         let mut bottom_max = std::i64::MIN;
-        let mut sum_bottom = 0;
-        let mut sum_peak = 0;
-        let mut total_sum = 0;
+        let mut sum_bottom = 0i128;
+        let mut sum_peak = 0i128;
+        let mut total_sum = 0i128;
         let mut total_count = 0;
 
         buckets.iter().for_each(
@@ -62,8 +62,8 @@ impl BucketsStats {
                     peak_min = std::cmp::min(peak_min, *max);
                     bottom = std::cmp::min(bottom, *min);
                     bottom_max = std::cmp::max(bottom_max, *min);
-                    sum_bottom += min;
-                    sum_peak += max;
+                    sum_bottom += i128::from(*min);
+                    sum_peak += i128::from(*max);
                 }
             },
         );
-- 
2.43.0


From e6c4181dab444fa8860b71767bbb462c0b2da426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 09/21] fix: average the peaks and bottoms of a tracked gauge
 over the seconds with values only

---
 src/instruments/gauge/tracking.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/instruments/gauge/tracking.rs b/src/instruments/gauge/tracking.rs
index ed8b260..e883d3a 100644
--- a/src/instruments/gauge/tracking.rs
+++ b/src/instruments/gauge/tracking.rs
@@ -45,6 +45,7 @@ impl BucketsStats {
         let mut sum_peak = 0i128;
         let mut total_sum = 0i128;
         let mut total_count = 0;
+        let mut num_buckets_with_values = 0u64;
 
         buckets.iter().for_each(
             |Bucket {
@@ -55,6 +56,7 @@ impl BucketsStats {
                 if *count != 0 {
                     total_sum += sum;
                     total_count += count;
+                    num_buckets_with_values += 1;
 
                     let (min, max) = min_max;
 
@@ -70,8 +72,8 @@ impl BucketsStats {
 
         if total_count != 0 {
             let avg = (total_sum as f64) / (total_count as f64);
-            let bottom_avg = (sum_bottom as f64) / (buckets.len() as f64);
-            let peak_avg = (sum_peak as f64) / (buckets.len() as f64);
+            let bottom_avg = (sum_bottom as f64) / (num_buckets_with_values as f64);
+            let peak_avg = (sum_peak as f64) / (num_buckets_with_values as f64);
             Some(BucketsStats {
                 peak,
                 peak_min,
-- 
2.43.0


From 34236168c32bf4aa322abcfb12a656a00f1dd618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:45 +0000
Subject: [PATCH 10/21] fix: do not panic if the period of an (non) occurrence
 indicator exceeds the range of Instant

---
 .../switches/non_occurrence_indicator.rs           |  3 +--
 src/instruments/switches/occurrence_indicator.rs   | 14 ++++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/instruments/switches/non_occurrence_indicator.rs b/src/instruments/switches/non_occurrence_indicator.rs
index f4f4acc..ebc9cd9 100644
--- a/src/instruments/switches/non_occurrence_indicator.rs
+++ b/src/instruments/switches/non_occurrence_indicator.rs
@@ -208,8 +208,7 @@ impl NonOccurrenceIndicator {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let must_not_have_happened_after = Instant::now() - self.if_not_happened_within;
-        let current_state = self.happened_last <= must_not_have_happened_after;
+        let current_state = self.happened_last.elapsed() >= self.if_not_happened_within;
 
         if self.invert {
             !current_state
diff --git a/src/instruments/switches/occurrence_indicator.rs b/src/instruments/switches/occurrence_indicator.rs
index 2748523..c83c95e 100644
--- a/src/instruments/switches/occurrence_indicator.rs
+++ b/src/instruments/switches/occurrence_indicator.rs
@@ -19,7 +19,7 @@ pub struct OccurrenceIndicator {
     title: Option<String>,
     description: Option<String>,
     if_happened_within: Duration,
-    happened_last: Instant,
+    happened_last: Option<Instant>,
     invert: bool,
     show_inverted: Option<NameAlternation>,
 }
@@ -31,7 +31,7 @@ impl OccurrenceIndicator {
             title: None,
             description: None,
             if_happened_within: Duration::from_secs(60),
-            happened_last: Instant::now() - Duration::from_secs(60),
+            happened_last: None,
             invert: false,
             show_inverted: None,
         }
@@ -102,7 +102,7 @@ impl OccurrenceIndicator {
 
     pub fn set_if_happened_within(&mut self, d: Duration) {
         self.if_happened_within = d;
-        self.happened_last = Instant::now() - d;
+        self.happened_last = None;
     }
 
     pub fn if_happened_within(mut self, d: Duration) -> Self {
@@ -203,8 +203,10 @@ impl OccurrenceIndicator {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let must_have_happened_after = Instant::now() - self.if_happened_within;
-        let current_state = self.happened_last > must_have_happened_after;
+        let current_state = self
+            .happened_last
+            .map(|happened_last| happened_last.elapsed() < self.if_happened_within)
+            .unwrap_or(false);
 
         if self.invert {
             !current_state
@@ -230,7 +232,7 @@ impl PutsSnapshot for OccurrenceIndicator {
 
 impl Updates for OccurrenceIndicator {
     fn update(&mut self, _: &Update) -> usize {
-        self.happened_last = Instant::now();
+        self.happened_last = Some(Instant::now());
         1
     }
 }
-- 
2.43.0


From c14f1c29e556a99d37812680de28b41d730ff617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 11/21] fix: do not panic if a staircase timer stays on for
 longer than the range of Instant

---
 src/instruments/switches/staircase_timer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/instruments/switches/staircase_timer.rs b/src/instruments/switches/staircase_timer.rs
index 0ab2a8c..630364c 100644
--- a/src/instruments/switches/staircase_timer.rs
+++ b/src/instruments/switches/staircase_timer.rs
@@ -27,7 +27,7 @@ pub struct StaircaseTimer {
     description: Option<String>,
     switch_off_after: Duration,
     invert: bool,
-    stay_on_until: Option<Instant>,
+    switched_on: Option<(Instant, Duration)>,
     show_inverted: Option<NameAlternation>,
 }
 
@@ -39,7 +39,7 @@ impl StaircaseTimer {
             description: None,
             switch_off_after: Duration::from_secs(60),
             invert: false,
-            stay_on_until: None,
+            switched_on: None,
             show_inverted: None,
         }
     }
@@ -206,8 +206,8 @@ impl StaircaseTimer {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let value = if let Some(stay_on_until) = self.stay_on_until {
-            stay_on_until >= Instant::now()
+        let value = if let Some((at, switch_off_after)) = self.switched_on {
+            at.elapsed() <= switch_off_after
         } else {
             false
         };
@@ -236,7 +236,7 @@ impl PutsSnapshot for StaircaseTimer {
 
 impl Updates for StaircaseTimer {
     fn update(&mut self, _: &Update) -> usize {
-        self.stay_on_until = Some(Instant::now() + self.switch_off_after);
+        self.switched_on = Some((Instant::now(), self.switch_off_after));
         1
     }
 }
-- 
2.43.0


From 87399ce734fb8f19e6634f9239344aa82d64d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 12/21] fix: do not panic if a display is to be reset after
 more than the range of Instant

---
 src/instruments/other_instruments/display.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/instruments/other_instruments/display.rs b/src/instruments/other_instruments/display.rs
index 5879b87..6d2c01b 100644
--- a/src/instruments/other_instruments/display.rs
+++ b/src/instruments/other_instruments/display.rs
@@ -191,7 +191,8 @@ impl Updates for DataDisplay {
     fn update(&mut self, update: &Update) -> usize {
         if let Some(value) = update.observed_value().and_then(|v| v.to_item_kind()) {
             if let Some(reset_after) = self.reset_after {
-                self.stay_on_until = Some(Instant::now() + reset_after);
+                // A point in time that can not be represented is never reached
+                self.stay_on_until = Instant::now().checked_add(reset_after);
             }
             self.value = Some(value);
             1
-- 
2.43.0


From a7efddac4ad59ec73efa54168c652e58fb0c213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 13/21] fix: saturate the count of a meter instead of
 overflowing

---
 src/instruments/fundamentals/metrics_meter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruments/fundamentals/metrics_meter.rs b/src/instruments/fundamentals/metrics_meter.rs
index eff6e1d..16433d3 100644
--- a/src/instruments/fundamentals/metrics_meter.rs
+++ b/src/instruments/fundamentals/metrics_meter.rs
@@ -68,7 +68,7 @@ impl Meter for StdMeter {
         let mut s = self.data.lock().unwrap();
         self.tick_inner(&mut s);
 
-        s.count += n;
+        s.count = s.count.saturating_add(n);
 
         for i in 0..WINDOW.len() {
             s.ewma[i].update(n as usize);
-- 
2.43.0


From 0da79d64e8be95db402cf0fb059b37f4317d972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:11 +0000
Subject: [PATCH 14/21] fix: hide the values of what is inactive even if the
 activity state is not shown

---
 src/cockpit.rs           | 20 ++++++++------------
 src/instruments/panel.rs | 20 ++++++++------------
 src/processor.rs         | 20 ++++++++------------
 3 files changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/cockpit.rs b/src/cockpit.rs
index 7f6625f..f22ddd1 100644
--- a/src/cockpit.rs
+++ b/src/cockpit.rs
@@ -216,19 +216,15 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
+            let inactive = self.last_activity_at.elapsed() > d;
             if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!inactive)));
+            }
+            if inactive {
+                return;
             }
         };
 
diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index da2b2b1..68ef0a9 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -280,19 +280,15 @@ where
     fn put_values_into_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_default_descriptives(self, into, descriptive);
         if let Some(d) = self.max_inactivity_duration {
+            let inactive = self.last_update.elapsed() > d;
             if self.show_activity_state {
-                if self.last_update.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!inactive)));
+            }
+            if inactive {
+                return;
             }
         };
         self.counter
diff --git a/src/processor.rs b/src/processor.rs
index 83dfcf6..30084ff 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -464,19 +464,15 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
+            let inactive = self.last_activity_at.elapsed() > d;
             if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!inactive)));
+            }
+            if inactive {
+                return;
             }
         };
 
-- 
2.43.0


From b66fdccfa6bffb618c9225c7e777886dbf37a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 15/21] fix: a panel that receives observations is not inactive

---
 src/instruments/panel.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index 68ef0a9..7412818 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -346,6 +346,8 @@ where
             return 0;
         }
 
+        self.last_update = Instant::now();
+
         let mut instruments_updated = 0;
 
         self.counter
-- 
2.43.0


From 1aed39fe4aad60cc8814b7bfc969a4bf92756f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 16/21] fix: do not find a huge duration where there is a
 negative number

---
 src/snapshot.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 0a70e92..e9ac4f0 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -245,7 +245,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_nanos(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_nanos(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_nanos(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -256,7 +258,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_micros(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_micros(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_micros(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -267,7 +271,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_millis(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_millis(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_millis(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -278,7 +284,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_secs(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_secs(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_secs(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
-- 
2.43.0


From 87d184b57b13dd9251b954274bcabcc7bf3284f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 17/21] fix: do not overflow when converting i64::MIN to JSON

---
 src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index e9ac4f0..e36d481 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -2,6 +2,7 @@
 use std::fmt;
 use std::time::Duration;
 
+use json::number::Number;
 use json::{stringify, stringify_pretty, JsonValue};
 
 use crate::observation::ObservedValue;
@@ -361,7 +362,8 @@ impl ItemKind {
             }
             ItemKind::Float(v) => v.into(),
             ItemKind::UInt(v) => v.into(),
-            ItemKind::Int(v) => v.into(),
+            // `i64::MIN` has no positive counterpart to convert it from
+            ItemKind::Int(v) => Number::from_parts(v >= 0, v.unsigned_abs(), 0).into(),
             ItemKind::Snapshot(ref snapshot) => snapshot.to_json_value(config),
         }
     }
-- 
2.43.0


From 996ac174e3e1c61693e9cc7ff1d785351629ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:41 +0000
Subject: [PATCH 18/21] fix: raise the inactivity alarm of the driver if
 nothing happens

The alarm was reset with each collection, whether there was something
to collect or not, so that it could never be raised while running.
---
 src/driver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/driver.rs b/src/driver.rs
index 7c53257..962913e 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -726,7 +726,9 @@ impl DriverInstruments {
                     now,
                 ));
         }
-        self.inactivity_alarm.update(&Update::Observation(now));
+        if outcome.something_happened() {
+            self.inactivity_alarm.update(&Update::Observation(now));
+        }
     }
 
     pub fn update_post_snapshot(&mut self, snapshot_started: Instant) {
-- 
2.43.0


From d4da97dd373e1807f7c8ad9bbdfd3b8dd130a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:18 +0000
Subject: [PATCH 19/21] fix: do not keep asking an empty queue for messages
 until the maximum is reached

---
 src/processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processor.rs b/src/processor.rs
index 30084ff..ab9c954 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -557,7 +557,7 @@ where
                     }
                     processed += 1;
                 }
-                Err(TryRecvError::Empty) => {}
+                Err(TryRecvError::Empty) => break,
                 Err(TryRecvError::Disconnected) => {
                     let name = self.name.as_deref().unwrap_or_else(|| "<no name>");
                     util::log_warning(format!(
-- 
2.43.0


From eac8d6ce84f21d5bf7044969aac3ae190b223d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:54 +0000
Subject: [PATCH 20/21] fix: count more than i64::MAX occurrences observed at
 once in a meter

---
 src/instruments/meter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/instruments/meter.rs b/src/instruments/meter.rs
index 3bdea01..a7e7d34 100644
--- a/src/instruments/meter.rs
+++ b/src/instruments/meter.rs
@@ -256,8 +256,9 @@ impl Updates for Meter {
         match *with {
             Update::ObservationWithValue(_, _) => self.inner_meter.mark(1),
             Update::Observations(n, _) => {
-                if n <= ::std::i64::MAX as u64 && n != 0 {
-                    self.inner_meter.mark(n as i64)
+                if n != 0 {
+                    self.inner_meter
+                        .mark(std::cmp::min(n, std::i64::MAX as u64) as i64)
                 }
             }
             Update::Observation(_) => self.inner_meter.mark(1),
-- 
2.43.0


From 7b4f89ce0543fc4b26fff181f47f9ea399b1a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 21/21] fix: do not wrap around the occurrences a meter has not
 averaged yet

---
 src/instruments/fundamentals/metrics_meter.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/instruments/fundamentals/metrics_meter.rs b/src/instruments/fundamentals/metrics_meter.rs
index 16433d3..29c59e1 100644
--- a/src/instruments/fundamentals/metrics_meter.rs
+++ b/src/instruments/fundamentals/metrics_meter.rs
@@ -4,7 +4,7 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
-use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::atomic::{AtomicI64, Ordering};
 use std::sync::Mutex;
 
 #[cfg(test)]
@@ -71,7 +71,7 @@ impl Meter for StdMeter {
         s.count = s.count.saturating_add(n);
 
         for i in 0..WINDOW.len() {
-            s.ewma[i].update(n as usize);
+            s.ewma[i].update(n);
         }
     }
 
@@ -201,7 +201,7 @@ pub const TICK_RATE_SECS: u64 = 5;
 #[allow(missing_docs)]
 #[derive(Debug)]
 pub struct EWMA {
-    uncounted: AtomicUsize, // This tracks uncounted events
+    uncounted: AtomicI64, // This tracks uncounted events
     alpha: f64,
     rate: f64,
     init: bool,
@@ -225,14 +225,19 @@ impl EWMA {
         }
     }
 
-    pub fn update(&self, n: usize) {
-        self.uncounted.fetch_add(n, Ordering::SeqCst);
+    /// The uncounted events saturate if they do not fit.
+    pub fn update(&self, n: i64) {
+        let _ = self
+            .uncounted
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |uncounted| {
+                Some(uncounted.saturating_add(n))
+            });
     }
 
     /// construct new by alpha
     pub fn new_by_alpha(alpha: f64) -> Self {
         EWMA {
-            uncounted: AtomicUsize::new(0),
+            uncounted: AtomicI64::new(0),
             alpha,
             rate: 0.0,
             init: false,
-- 
2.43.0


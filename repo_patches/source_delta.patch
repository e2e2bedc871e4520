From 2eea629586281c21b7fcd101140a489331ae663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 01/13] fix: keep the index of quantile 1.0 inside the samples

---
 src/aggregated_metrics.rs | 2 +-
 src/metrics/summary.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 2950497..b49f06f 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -303,7 +303,7 @@ impl AggregatedSummary {
         quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);
                 (quantile, aggregated_samples[index])
             })
             .collect()
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 942142e..46b3804 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -90,7 +90,7 @@ impl Summary {
             .quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);
                 (quantile, samples[index])
             })
             .collect()
-- 
2.43.0


From 1f3b49dee22da4cae4a52e4306920a801f447f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 02/13] fix: escape the label values of histograms and
 summaries as the text format requires

---
 src/aggregated_metrics.rs | 4 ++--
 src/metrics/histogram.rs  | 2 +-
 src/metrics/summary.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index b49f06f..a7aae44 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -216,7 +216,7 @@ impl fmt::Display for AggregatedHistogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
@@ -347,7 +347,7 @@ impl fmt::Display for AggregatedSummary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 92e6732..10933de 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -131,7 +131,7 @@ impl fmt::Display for Histogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 46b3804..dce8c55 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -169,7 +169,7 @@ impl fmt::Display for Summary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
-- 
2.43.0


From 0f0bc92a471dae80e66d3d16ebbfb620612c4b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 03/13] fix: escape line feeds with a single backslash

---
 src/label.rs  | 2 +-
 src/metric.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 845f20f..2b9d668 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -100,7 +100,7 @@ impl fmt::Display for Label {
         for c in self.value.chars() {
             match c {
                 '\\' => write!(f, "\\\\")?,
-                '\n' => write!(f, "\\\\n")?,
+                '\n' => write!(f, "\\n")?,
                 '"' => write!(f, "\\\"")?,
                 _ => write!(f, "{}", c)?,
             }
diff --git a/src/metric.rs b/src/metric.rs
index de10628..ca21bf5 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -332,7 +332,7 @@ impl fmt::Display for MetricFamily {
             for c in help.chars() {
                 match c {
                     '\\' => write!(f, "\\\\")?,
-                    '\n' => write!(f, "\\\\n")?,
+                    '\n' => write!(f, "\\n")?,
                     _ => write!(f, "{}", c)?,
                 }
             }
-- 
2.43.0


From f19c5049cbe0aaebc0ab1c112f5239aff123d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 04/13] fix: spell NaN as the text format does

---
 src/metric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index ca21bf5..e445f96 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -180,7 +180,7 @@ impl fmt::Display for MetricValue {
         if self.0.is_finite() {
             write!(f, "{}", self.0)
         } else if self.0.is_nan() {
-            write!(f, "Nan")
+            write!(f, "NaN")
         } else if self.0.is_sign_positive() {
             write!(f, "+Inf")
         } else {
-- 
2.43.0


From 87534141e52b55abbe56dc4b30fffbea6cd6df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 05/13] fix: do not wrap the integer part of a counter around
 when adding 2^64 or more

---
 src/metrics/counter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/counter.rs b/src/metrics/counter.rs
index efaa2a4..1cec21b 100644
--- a/src/metrics/counter.rs
+++ b/src/metrics/counter.rs
@@ -265,7 +265,7 @@ impl Value {
     fn add(&self, count: f64) {
         let floor = count.floor() as u64;
         let ceil = count.ceil() as u64;
-        if floor == ceil {
+        if floor == ceil && count < 18_446_744_073_709_551_616.0 {
             self.u64.add(floor);
         } else {
             self.f64.add(count);
-- 
2.43.0


From c959f941bb09b318d50082054e64a76bc01de423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 06/13] fix: expose every bucket bound and every quantile only
 once

---
 src/metrics/histogram.rs | 1 +
 src/metrics/summary.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 10933de..cd8949f 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -282,6 +282,7 @@ impl HistogramBuilder {
                 .partial_cmp(&b.upper_bound())
                 .expect("Never fails")
         });
+        buckets.dedup_by(|a, b| a.upper_bound() == b.upper_bound());
         let inner = Inner {
             bucket_name,
             labels: Labels::new(labels),
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index dce8c55..e0140d2 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -293,6 +293,7 @@ impl SummaryBuilder {
             .map(|quantile| track!(Quantile::new(*quantile)))
             .collect::<Result<Vec<_>>>())?;
         quantiles.sort_by(|a, b| a.as_f64().partial_cmp(&b.as_f64()).expect("Never fails"));
+        quantiles.dedup();
         let inner = Inner {
             quantile_name,
             labels: Labels::new(labels),
-- 
2.43.0


From 21aa9024c687e77a52cb6d8d816e24f0e57b62b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 07/13] fix: merge only the buckets that have the same upper
 bound

---
 src/bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bucket.rs b/src/bucket.rs
index e55fa0d..6508594 100644
--- a/src/bucket.rs
+++ b/src/bucket.rs
@@ -133,7 +133,7 @@ impl<'a> Iterator for AggregatedCumulativeBuckets<'a> {
 
         for buckets in &mut self.iters {
             let upper_bound = buckets.peek().expect("Never fails").upper_bound();
-            if min.is_infinite() || (upper_bound - min).abs() < std::f64::EPSILON {
+            if upper_bound == min {
                 let bucket = buckets.next().expect("Never fails");
                 self.cumulative_count += bucket.count();
             }
-- 
2.43.0


From ece297b9ebc9987857174a6ed0fd245bca747cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 08/13] fix: stop tracking a processing that panics

---
 src/metrics/gauge.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/metrics/gauge.rs b/src/metrics/gauge.rs
index 291f5cf..734fb1a 100644
--- a/src/metrics/gauge.rs
+++ b/src/metrics/gauge.rs
@@ -116,10 +116,16 @@ impl Gauge {
     where
         F: FnOnce() -> T,
     {
+        struct Guard<'a>(&'a Gauge);
+        impl<'a> Drop for Guard<'a> {
+            fn drop(&mut self) {
+                self.0.decrement();
+            }
+        }
+
         self.increment();
-        let result = f();
-        self.decrement();
-        result
+        let _guard = Guard(self);
+        f()
     }
 
     /// Measures the exeuction time of `f` and sets this gauge to its duration in seconds.
-- 
2.43.0


From 087ed434f739b20ec8484ef4fb35be102363ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 09/13] fix: render the _count of a histogram equal to its +Inf
 bucket under concurrent observations

---
 src/aggregated_metrics.rs | 6 ++++--
 src/metrics/histogram.rs  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index a7aae44..c398c4b 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -208,7 +208,9 @@ impl fmt::Display for AggregatedHistogram {
             "".to_string()
         };
 
+        let mut count = 0;
         for bucket in self.cumulative_buckets() {
+            count = bucket.cumulative_count();
             write!(
                 f,
                 "{}_bucket{{le=\"{}\"",
@@ -218,7 +220,7 @@ impl fmt::Display for AggregatedHistogram {
             for label in self.labels().iter() {
                 write!(f, ",{}", label)?;
             }
-            writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
+            writeln!(f, "}} {}{}", count, timestamp)?;
         }
         writeln!(
             f,
@@ -233,7 +235,7 @@ impl fmt::Display for AggregatedHistogram {
             "{}_count{} {}{}",
             self.metric_name(),
             labels,
-            self.count(),
+            count,
             timestamp
         )?;
         Ok(())
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index cd8949f..9bbebd1 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -123,7 +123,9 @@ impl fmt::Display for Histogram {
             "".to_string()
         };
 
+        let mut count = 0;
         for bucket in self.cumulative_buckets() {
+            count = bucket.cumulative_count();
             write!(
                 f,
                 "{}_bucket{{le=\"{}\"",
@@ -133,7 +135,7 @@ impl fmt::Display for Histogram {
             for label in self.labels().iter() {
                 write!(f, ",{}", label)?;
             }
-            writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
+            writeln!(f, "}} {}{}", count, timestamp)?;
         }
         writeln!(
             f,
@@ -148,7 +150,7 @@ impl fmt::Display for Histogram {
             "{}_count{} {}{}",
             self.metric_name(),
             labels,
-            self.count(),
+            count,
             timestamp
         )?;
         Ok(())
-- 
2.43.0


From 0c8e8453b0b61db6884b84ab6dafcbf46e440b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 10/13] fix: return a live default registry even after a
 collector panicked

---
 src/registry.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index 73b62eb..2606049 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -17,11 +17,9 @@ pub fn default_gatherer() -> &'static Mutex<Gatherer> {
 
 /// Returns the global default `Registry`.
 pub fn default_registry() -> Registry {
-    if let Ok(gatherer) = default_gatherer().lock() {
-        gatherer.registry()
-    } else {
-        let (tx, _) = mpsc::channel();
-        Registry { tx }
+    match default_gatherer().lock() {
+        Ok(gatherer) => gatherer.registry(),
+        Err(poisoned) => poisoned.into_inner().registry(),
     }
 }
 
-- 
2.43.0


From 3060dce8d8e26a9b5b81cf2c287934b0266a5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 11/13] fix: do not panic in gather when labels are modified
 concurrently

---
 src/registry.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index 2606049..5b28de9 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -1,4 +1,3 @@
-use std::cmp;
 use std::fmt;
 use std::sync::mpsc;
 use std::sync::Mutex;
@@ -102,13 +101,10 @@ impl Gatherer {
                 self.collectors.swap_remove(i);
             }
         }
-        metrics.sort_by(|a, b| {
-            let result = (a.name(), a.kind()).cmp(&(b.name(), b.kind()));
-            if result == cmp::Ordering::Equal {
-                a.labels().iter().cmp(b.labels().iter())
-            } else {
-                result
-            }
+        // The labels may be modified concurrently, so each sort key is taken only once.
+        metrics.sort_by_cached_key(|m| {
+            let labels = m.labels().iter().cloned().collect::<Vec<_>>();
+            (m.name().clone(), m.kind(), labels)
         });
 
         let mut families: Vec<MetricFamily> = Vec::new();
-- 
2.43.0


From eb1e76dfa35f4ac53fa1381a25d4bd09c039e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 12/13] fix: treat metrics whose whole names are equal as one
 family

---
 src/metric.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index e445f96..fdb8c83 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -1,6 +1,8 @@
 //! Metric.
 use std;
+use std::cmp;
 use std::fmt;
+use std::hash::{Hash, Hasher};
 
 pub use aggregated_metrics::{
     AggregatedCounter, AggregatedGauge, AggregatedHistogram, AggregatedSummary,
@@ -84,7 +86,7 @@ impl From<Summary> for Metric {
 ///
 /// - [Metric name and labels](https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels)
 /// - [Metric names](https://prometheus.io/docs/instrumenting/writing_clientlibs/#metric-names)
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Debug, Clone)]
 pub struct MetricName {
     namespace: Option<String>,
     subsystem: Option<String>,
@@ -141,6 +143,28 @@ impl MetricName {
         Ok(())
     }
 }
+// The parts of a name are not exposed: what identifies a metric is the whole name.
+impl PartialEq for MetricName {
+    fn eq(&self, other: &Self) -> bool {
+        self.to_string() == other.to_string()
+    }
+}
+impl Eq for MetricName {}
+impl PartialOrd for MetricName {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+impl Ord for MetricName {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        self.to_string().cmp(&other.to_string())
+    }
+}
+impl Hash for MetricName {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.to_string().hash(state);
+    }
+}
 impl fmt::Display for MetricName {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         if let Some(ref s) = self.namespace {
-- 
2.43.0


From 588dbb8022f21dad6005982e5e4a6baee2027e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 13/13] fix: serialize the writers of a label set

AtomicImmut::update decides by the address of the old value whether another
writer was faster. The address may have been reused for a newer value in the
meantime, in which case the label that was inserted concurrently got lost.
---
 src/label.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 2b9d668..a1ab7a9 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -8,6 +8,7 @@ use atomic_immut::AtomicImmut;
 use std;
 use std::fmt;
 use std::ops::Deref;
+use std::sync::{Mutex, PoisonError};
 
 use {ErrorKind, Result};
 
@@ -111,7 +112,7 @@ impl fmt::Display for Label {
 
 /// A map of labels (i.e., key-value pairs).
 #[derive(Debug)]
-pub struct Labels(AtomicImmut<Vec<Label>>);
+pub struct Labels(AtomicImmut<Vec<Label>>, Mutex<()>);
 impl Labels {
     /// Returns the number of labels contained in this map.
     pub fn len(&self) -> usize {
@@ -136,7 +137,17 @@ impl Labels {
     }
 
     pub(crate) fn new(labels: Vec<Label>) -> Self {
-        Labels(AtomicImmut::new(labels))
+        Labels(AtomicImmut::new(labels), Mutex::new(()))
+    }
+
+    // `AtomicImmut::update` compares only the address of the value, which may have been reused
+    // by the value of another writer in the meantime. So the writers have to be serialized.
+    fn update<F>(&self, f: F)
+    where
+        F: Fn(&Vec<Label>) -> Vec<Label>,
+    {
+        let _writer = self.1.lock().unwrap_or_else(PoisonError::into_inner);
+        self.0.update(f);
     }
 }
 impl fmt::Display for Labels {
@@ -168,7 +179,7 @@ impl<'a> LabelsMut<'a> {
             ErrorKind::InvalidInput
         );
         let label = track!(Label::new(name, value))?;
-        self.inner.0.update(move |labels| {
+        self.inner.update(move |labels| {
             let mut labels = labels.clone();
             labels.retain(|l| l.name != label.name);
             labels.push(label.clone());
@@ -181,13 +192,12 @@ impl<'a> LabelsMut<'a> {
     /// Removes the label which has the name `name` if it exists.
     pub fn remove(&mut self, name: &str) {
         self.inner
-            .0
             .update(|labels| labels.iter().filter(|l| l.name != name).cloned().collect());
     }
 
     /// Clears the all labels.
     pub fn clear(&mut self) {
-        self.inner.0.store(Vec::new());
+        self.inner.update(|_| Vec::new());
     }
 
     pub(crate) fn new(labels: &'a Labels, reserved: Option<&'static str>) -> Self {
-- 
2.43.0


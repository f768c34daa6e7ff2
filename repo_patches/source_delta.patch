From 563040feabfc322fc5de3c82c4591e458f156fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:56 +0000
Subject: [PATCH 1/9] fix: MetricsIter::size_hint must count the dynamic
 metrics

The dynamic half of the hint was computed from the static iterator, so the
lower bound could exceed, and the upper bound fall short of, the number of
entries that the iterator yields.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 06e1459..46c5922 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -88,7 +88,7 @@ impl<'a> Iterator for MetricsIter<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let (slo, shi) = self.sm.size_hint();
-        let (dlo, dhi) = self.sm.size_hint();
+        let (dlo, dhi) = self.dm.size_hint();
 
         match (shi, dhi) {
             (Some(shi), Some(dhi)) => (slo.saturating_add(dlo), shi.checked_add(dhi)),
-- 
2.43.0


From b35e83732650a9be200190f4dad61978d26514ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:56 +0000
Subject: [PATCH 2/9] fix: MetricsIter::nth_back must continue into the static
 metrics

Once the dynamic metrics are exhausted the remaining steps have to be taken
from the back of the static metrics; the exhausted dynamic iterator was asked
again instead, so nth_back (and rev().skip(), rev().step_by(), ...) lost
every static metric.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 46c5922..ab6f3a3 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -125,7 +125,7 @@ impl<'a> DoubleEndedIterator for MetricsIter<'a> {
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
         let len = self.dm.len();
-        self.dm.nth_back(n).or_else(|| self.dm.nth_back(n - len))
+        self.dm.nth_back(n).or_else(|| self.sm.nth_back(n - len))
     }
 
     fn rfold<B, F>(self, init: B, mut f: F) -> B
-- 
2.43.0


From 707dc5affc47a6e3373d6e7e53bd3c37497ec01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:56 +0000
Subject: [PATCH 3/9] fix: MetricEntry::formatted must use the formatter set on
 MetricBuilder

MetricBuilder::formatter stores the formatter in the provider map, which can
only provide references, while formatted() only requested it by value. As a
result the formatter of every dynamic metric was silently ignored.
---
 metriken-core/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index a648eae..9338fbf 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -129,6 +129,11 @@ impl MetricEntry {
         let formatter = self
             .request_value::<crate::wrapper::FormattingFn>()
             .map(|func| func.0)
+            // Dynamic metrics can only provide their formatter by reference.
+            .or_else(|| {
+                self.request_ref::<crate::wrapper::FormattingFn>()
+                    .map(|func| func.0)
+            })
             .unwrap_or(crate::default_formatter);
 
         formatter(self, format)
-- 
2.43.0


From aadeb7b3066237a6174a703a9fa3575c0b21d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:56 +0000
Subject: [PATCH 4/9] fix: MetricEntry::is must recognize dynamic metrics

MetricEntry::is compares addresses, and the entry of a dynamic metric points
at the ProviderMetric around it. With the default representation the compiler
is free to place the provider map first (and does), so is() returned false for
every dynamic metric.
---
 metriken-core/src/dynmetrics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index 008d831..71e843e 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -157,6 +157,10 @@ pub(crate) fn unregister(metric: *const dyn Metric) {
 }
 
 /// A metric combined with a set of dynamic providers.
+///
+/// This is `#[repr(C)]` so that the metric has the same address as the wrapper.
+/// [`MetricEntry::is`] depends on that.
+#[repr(C)]
 struct ProviderMetric<M> {
     metric: M,
     provider: ProviderMap,
-- 
2.43.0


From 3ecbb64a59831c5b214d8c98390a1ce8f65b5878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:56 +0000
Subject: [PATCH 5/9] fix: a V2 snapshot must not be deserialized from JSON as
 V1

Snapshot is an untagged enum and V1 was tried first. In self-describing
formats unknown fields are ignored so every V2 snapshot was accepted as V1,
which lost its duration.
---
 metriken-exposition/src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metriken-exposition/src/snapshot.rs b/metriken-exposition/src/snapshot.rs
index 84b3fd6..a39bc27 100644
--- a/metriken-exposition/src/snapshot.rs
+++ b/metriken-exposition/src/snapshot.rs
@@ -63,8 +63,10 @@ pub struct SnapshotV2 {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum Snapshot {
-    V1(SnapshotV1),
+    // Untagged variants are tried in order: V2 has to come first since, in a
+    // self-describing format, every V2 snapshot is also a valid V1 snapshot.
     V2(SnapshotV2),
+    V1(SnapshotV1),
 }
 
 #[cfg(feature = "parquet")]
-- 
2.43.0


From c1daedf05cc6e59deab5872f0ade2552db5dc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:56 +0000
Subject: [PATCH 6/9] fix: escape label values in the Prometheus exposition
 format

Backslash, double quote and line feed have to be escaped within a label value,
otherwise the output is malformed or reads back as different labels.
---
 metriken-core/src/formatter.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/metriken-core/src/formatter.rs b/metriken-core/src/formatter.rs
index c7b07e6..266d7aa 100644
--- a/metriken-core/src/formatter.rs
+++ b/metriken-core/src/formatter.rs
@@ -29,7 +29,7 @@ pub fn default_formatter(metric: &MetricEntry, format: Format) -> String {
             let metadata: Vec<String> = metric
                 .metadata()
                 .iter()
-                .map(|(key, value)| format!("{key}=\"{value}\""))
+                .map(|(key, value)| format!("{key}=\"{}\"", escape_label_value(value)))
                 .collect();
             let metadata = metadata.join(", ");
 
@@ -42,3 +42,19 @@ pub fn default_formatter(metric: &MetricEntry, format: Format) -> String {
         _ => metric.name().to_string(),
     }
 }
+
+/// Escape a label value as required by the Prometheus exposition format.
+fn escape_label_value(value: &str) -> String {
+    let mut escaped = String::with_capacity(value.len());
+
+    for c in value.chars() {
+        match c {
+            '\\' => escaped.push_str("\\\\"),
+            '"' => escaped.push_str("\\\""),
+            '\n' => escaped.push_str("\\n"),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
-- 
2.43.0


From 6e0771f13ac1a7f33807c92403d5a137bbcf0332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:56 +0000
Subject: [PATCH 7/9] fix: MsgpackToParquet must return I/O errors of the
 input, not panic

---
 metriken-exposition/src/convert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 967eacb..69b415d 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -61,7 +61,7 @@ impl MsgpackToParquet {
         let mut schema = ParquetSchema::new();
 
         // First pass to build the schema
-        while !reader.fill_buf().unwrap().is_empty() {
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             schema.push(s);
@@ -69,8 +69,8 @@ impl MsgpackToParquet {
         let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
 
         // Rewind file pointer and second pass for the actual metrics
-        reader.rewind().unwrap();
-        while !reader.fill_buf().unwrap().is_empty() {
+        reader.rewind()?;
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             writer.push(s)?;
-- 
2.43.0


From 66aa8dda52ba4cf673ae5f7b02873f2d239867f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:55 +0000
Subject: [PATCH 8/9] fix: AtomicHistogram::increment must reject
 2^max_value_power, not panic

---
 metriken/src/histogram.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metriken/src/histogram.rs b/metriken/src/histogram.rs
index 24bfd9e..ca95514 100644
--- a/metriken/src/histogram.rs
+++ b/metriken/src/histogram.rs
@@ -41,6 +41,12 @@ impl AtomicHistogram {
 
     /// Increments the bucket for a corresponding value.
     pub fn increment(&self, value: u64) -> Result<(), Error> {
+        // The first value beyond the range, 2^max_value_power, is not rejected
+        // by the histogram itself which would then panic.
+        if (value as u128) >> self.config.max_value_power() != 0 {
+            return Err(Error::OutOfRange);
+        }
+
         self.get_or_init().increment(value)
     }
 
-- 
2.43.0


From 84abcb7a8814ac605352995ae9e156e9b39dec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:31 +0000
Subject: [PATCH 9/9] fix: the first RwLockHistogram update must not be visible
 without its data

A load racing with the first update_from could see the histogram after it
was initialised but before the data was copied, as if a bulk update of
zeros had happened.
---
 metriken/src/histogram.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/metriken/src/histogram.rs b/metriken/src/histogram.rs
index ca95514..9b99608 100644
--- a/metriken/src/histogram.rs
+++ b/metriken/src/histogram.rs
@@ -116,10 +116,19 @@ impl RwLockHistogram {
             return Err(Error::IncompatibleParameters);
         }
 
-        let mut histogram = self.get_or_init().write();
-
-        let buckets = histogram.as_mut_slice();
-        buckets.copy_from_slice(data);
+        // The first update must make the histogram visible together with its
+        // data, or a concurrent load could see it before it was ever updated.
+        let mut updated = false;
+        let inner = self.inner.get_or_init(|| {
+            let mut histogram = ::histogram::Histogram::with_config(&self.config);
+            histogram.as_mut_slice().copy_from_slice(data);
+            updated = true;
+            histogram.into()
+        });
+
+        if !updated {
+            inner.write().as_mut_slice().copy_from_slice(data);
+        }
 
         Ok(())
     }
@@ -133,11 +142,6 @@ impl RwLockHistogram {
     pub fn load(&self) -> Option<Histogram> {
         self.inner.get().map(|h| h.read().clone())
     }
-
-    fn get_or_init(&self) -> &RwLock<::histogram::Histogram> {
-        self.inner
-            .get_or_init(|| ::histogram::Histogram::with_config(&self.config).into())
-    }
 }
 
 impl Metric for RwLockHistogram {
-- 
2.43.0


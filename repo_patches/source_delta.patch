From d89ceaa8e333e4fe91cacb825774d13aa4dd0c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 01/11] fix: return the error when writing a label in the text
 encoder fails

---
 core/src/text.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index 8d4aa75..5751976 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -155,10 +155,10 @@ impl<W: Write> TextEncoder<W> {
         struct GroupVisitor<'a, W> {
             first: bool,
             writer: &'a mut W,
+            result: Result<(), std::io::Error>,
         }
-        impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
-            type Output = Result<(), std::io::Error>;
-            fn write_value(
+        impl<W: Write> GroupVisitor<'_, W> {
+            fn try_write_value(
                 &mut self,
                 name: &LabelName,
                 x: &impl LabelValue,
@@ -175,6 +175,15 @@ impl<W: Write> TextEncoder<W> {
                 })
             }
         }
+        impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
+            type Output = ();
+            fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
+                // label groups don't stop on errors, so remember the first one and write no more.
+                if self.result.is_ok() {
+                    self.result = self.try_write_value(name, x);
+                }
+            }
+        }
 
         self.state = State::Metrics;
         name.encode_utf8(&mut self.writer)?;
@@ -182,8 +191,10 @@ impl<W: Write> TextEncoder<W> {
         let mut visitor = GroupVisitor {
             first: true,
             writer: &mut self.writer,
+            result: Ok(()),
         };
         labels.visit_values(&mut visitor);
+        visitor.result?;
         if !visitor.first {
             self.writer.write_all(b"}")?;
         }
-- 
2.43.0


From cff5142de3df34076f559562d2de3397f5a07942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 02/11] fix: reject '-' in MetricName::try_from_str

---
 core/src/metric/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/metric/name.rs b/core/src/metric/name.rs
index 8a4aa4c..92d10c3 100644
--- a/core/src/metric/name.rs
+++ b/core/src/metric/name.rs
@@ -83,7 +83,7 @@ fn try_assert_metric_name(value: &str) -> Result<(), InvalidMetricName> {
     }
 
     value.bytes().try_fold((), |(), b| match b {
-        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'-' | b'_' | b':' => Ok(()),
+        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
         _ => Err(InvalidMetricName::InvalidChars),
     })?;
 
-- 
2.43.0


From 526311ec35c82dfa248b2631d409d0031b52ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 03/11] fix: make MetricName repr(transparent), as its safety
 comments require

---
 core/src/metric/name.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/metric/name.rs b/core/src/metric/name.rs
index 92d10c3..4f972e5 100644
--- a/core/src/metric/name.rs
+++ b/core/src/metric/name.rs
@@ -57,6 +57,7 @@ impl std::error::Error for InvalidMetricName {}
 /// Represents a string-based [`MetricNameEncoder`]
 ///
 /// Metric names may contain ASCII letters, digits, underscores, and colons. It must match the regex `[a-zA-Z_:][a-zA-Z0-9_:]*`.
+#[repr(transparent)]
 pub struct MetricName(str);
 
 const fn const_assert_metric_name(name: &str) {
-- 
2.43.0


From 063934f8a9b2c594c13e3ba25d4331c9e9b2b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 04/11] fix: print counters and histogram counts above i64::MAX
 as unsigned numbers

---
 core/src/metric/group.rs |  1 +
 core/src/text.rs         | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/metric/group.rs b/core/src/metric/group.rs
index 7d8a26c..8148100 100644
--- a/core/src/metric/group.rs
+++ b/core/src/metric/group.rs
@@ -12,6 +12,7 @@ use super::{
 /// Values that prometheus supports in the text format
 #[derive(Clone, Copy, Debug)]
 pub enum MetricValue {
+    Uint(u64),
     Int(i64),
     Float(f64),
 }
diff --git a/core/src/text.rs b/core/src/text.rs
index 5751976..9c2ab12 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -200,6 +200,9 @@ impl<W: Write> TextEncoder<W> {
         }
         self.writer.write_all(b" ")?;
         match value {
+            MetricValue::Uint(x) => self
+                .writer
+                .write_all(itoa::Buffer::new().format(x).as_bytes())?,
             MetricValue::Int(x) => self
                 .writer
                 .write_all(itoa::Buffer::new().format(x).as_bytes())?,
@@ -254,7 +257,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             enc.write_metric_value(
                 name.by_ref().with_suffix(Bucket),
                 labels.by_ref().compose_with(HistogramLabelLe { le }),
-                MetricValue::Int(val as i64),
+                MetricValue::Uint(val),
             )?;
         }
         let count = val + inf;
@@ -263,7 +266,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             labels
                 .by_ref()
                 .compose_with(HistogramLabelLe { le: f64::INFINITY }),
-            MetricValue::Int(count as i64),
+            MetricValue::Uint(count),
         )?;
         enc.write_metric_value(
             name.by_ref().with_suffix(Sum),
@@ -273,7 +276,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
         enc.write_metric_value(
             name.by_ref().with_suffix(Count),
             labels,
-            MetricValue::Int(count as i64),
+            MetricValue::Uint(count),
         )?;
         Ok(())
     }
@@ -296,7 +299,7 @@ impl<W: Write> MetricEncoding<TextEncoder<W>> for CounterState {
         enc.write_metric_value(
             &name,
             labels,
-            MetricValue::Int(self.count.load(core::sync::atomic::Ordering::Relaxed) as i64),
+            MetricValue::Uint(self.count.load(core::sync::atomic::Ordering::Relaxed)),
         )
     }
 }
-- 
2.43.0


From e4fd2eb2bafa2536b58fdd2327a091e22a212474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 05/11] fix: escape backslashes and newlines in help text

---
 core/src/text.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index 9c2ab12..4eb0787 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use bytes::{BufMut, Bytes, BytesMut};
-use memchr::memchr3_iter;
+use memchr::{memchr2_iter, memchr3_iter};
 
 use crate::{
     label::{LabelGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor},
@@ -65,7 +65,7 @@ impl<W: Write> Encoding for TextEncoder<W> {
         self.writer.write_all(b"# HELP ")?;
         name.encode_utf8(&mut self.writer)?;
         self.writer.write_all(b" ")?;
-        self.writer.write_all(help.as_bytes())?;
+        write_help_str(help, &mut self.writer)?;
         self.writer.write_all(b"\n")?;
         Ok(())
     }
@@ -415,6 +415,20 @@ impl<T: MetricEncoding<TextEncoder<BytesWriter>>> MetricEncoding<BufferedTextEnc
     }
 }
 
+fn write_help_str(s: &str, b: &mut impl Write) -> io::Result<()> {
+    let mut i = 0;
+    for j in memchr2_iter(b'\\', b'\n', s.as_bytes()) {
+        b.write_all(&s.as_bytes()[i..j])?;
+        match s.as_bytes()[j] {
+            b'\\' => b.write_all(b"\\\\")?,
+            b'\n' => b.write_all(b"\\n")?,
+            _ => unreachable!(),
+        }
+        i = j + 1;
+    }
+    b.write_all(&s.as_bytes()[i..])
+}
+
 pub(crate) fn write_label_str_value(s: &str, b: &mut impl Write) -> io::Result<()> {
     let mut i = 0;
     for j in memchr3_iter(b'\\', b'"', b'\n', s.as_bytes()) {
-- 
2.43.0


From 24e079581e4dbdde7ea00c4345e8fb9b385c0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 06/11] fix: read the start time of the process that is
 monitored, not of the caller

---
 process/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index c3707c8..f81fe58 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -58,7 +58,7 @@ impl ProcessCollector {
         let mut start_time = None;
         #[cfg(target_os = "linux")]
         if let Ok(boot_time) = procfs::boot_time_secs() {
-            if let Ok(stat) = procfs::process::Process::myself().and_then(|p| p.stat()) {
+            if let Ok(stat) = procfs::process::Process::new(pid).and_then(|p| p.stat()) {
                 start_time = Some(stat.starttime as i64 / clk_tck() + boot_time as i64);
             }
         }
-- 
2.43.0


From 6a672ac301e6f8c7ba73ee7879047e753c095cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 07/11] fix: count NaN observations in the +Inf bucket

---
 core/src/metric/histogram.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index 8937b77..af4647f 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -146,6 +146,14 @@ impl<const N: usize> Thresholds<N> {
         Thresholds { le: buckets }
     }
 
+    /// The index of the first bucket that contains `x`, or `N` if only +Inf does (as for NaN).
+    fn bucket(&self, x: f64) -> usize {
+        if x.is_nan() {
+            return N;
+        }
+        self.le.partition_point(|le| x > *le)
+    }
+
     /// View the bucket upper bounds
     pub fn get(&self) -> &[f64; N] {
         &self.le
@@ -155,7 +163,7 @@ impl<const N: usize> Thresholds<N> {
 impl<const N: usize> HistogramLockGuard<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        let bucket = self.metadata().bucket(x);
         self.inner.read().observe(bucket, x);
     }
 
@@ -175,7 +183,7 @@ impl<const N: usize> HistogramLockGuard<'_, N> {
 impl<const N: usize> HistogramMut<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(mut self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        let bucket = self.metadata().bucket(x);
         self.inner.get_mut().observe(bucket, x);
     }
 
-- 
2.43.0


From 7b4cfd272a9416568c86d2b8430e00658472848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 08/11] fix: accept an empty list of histogram buckets

---
 core/src/metric/histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index af4647f..f22b31e 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -137,9 +137,9 @@ impl<const N: usize> Thresholds<N> {
     /// # Panics
     /// Will panic if the buckets are not strictly monotonically increasing
     pub fn with_buckets(buckets: [f64; N]) -> Self {
-        for i in 0..N - 1 {
+        for i in 1..N {
             assert!(
-                buckets[i] < buckets[i + 1],
+                buckets[i - 1] < buckets[i],
                 "consecutive histogram buckets must not decrease or be equal",
             );
         }
-- 
2.43.0


From 2cf65e4be82c2825164c7fc0a0041fe2bee58e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 09/11] fix: keep protobuf families without metrics, and failed
 writes, out of the next family

---
 prometheus-proto/src/lib.rs | 57 +++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index 6aa7b06..6ed09b1 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -40,21 +40,36 @@ impl<W: Write> ProtoEncoder<W> {
         self.writer.flush()
     }
 
+    /// Write the buffered family, unless it has no metrics, and make room for the next one.
     fn flush_buf(&mut self) -> Result<(), std::io::Error> {
+        let mut res = Ok(());
         if self.state == State::Metrics {
-            self.state = State::Init;
-
             let len = self.buf.len() - 10;
             let varint_len = encoded_len_varint(len as u64);
             let offset = 10 - varint_len;
             encode_varint(len as u64, &mut &mut self.buf[offset..]);
-            self.writer.write_all(&self.buf[offset..])?;
+            res = self.writer.write_all(&self.buf[offset..]);
+        }
+
+        self.state = State::Init;
+        self.buf.clear();
+        self.buf.resize(10, 0);
+        res
+    }
 
-            self.buf.resize(10, 0);
-        } else if self.buf.is_empty() {
-            self.buf.resize(10, 0);
+    /// Start a new family called `name`, unless this follows its help.
+    fn begin_family(&mut self, name: impl MetricNameEncoder) -> Result<(), std::io::Error> {
+        // optional string     name   = 1;
+        let mut field = Vec::new();
+        encode_key(1, LengthDelimited, &mut field);
+        encode_varint(name.encode_len() as u64, &mut field);
+        name.encode_utf8(&mut field)?;
+
+        if self.state != State::Help || !self.buf[10..].starts_with(&field) {
+            self.flush_buf()?;
+            self.buf.extend_from_slice(&field);
         }
-        debug_assert!(self.buf.len() >= 10);
+        self.state = State::Type;
         Ok(())
     }
 }
@@ -63,6 +78,7 @@ impl<W: Write> ProtoEncoder<W> {
 enum State {
     Init,
     Help,
+    Type,
     Metrics,
 }
 
@@ -221,14 +237,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
+        enc.begin_family(name)?;
 
         // optional MetricType type   = 3;
         // COUNTER = 0;
@@ -276,14 +285,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
+        enc.begin_family(name)?;
 
         // optional MetricType type   = 3;
         // GAUGE = 1;
@@ -331,14 +333,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
+        enc.begin_family(name)?;
 
         // optional MetricType type   = 3;
         // GAUGE = 1;
-- 
2.43.0


From 2ca81408e01e717e5a797ac81cba2ef9e509ae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:16 +0000
Subject: [PATCH 10/11] fix: reject label groups whose encoded identifier would
 overflow

The product of the fixed cardinalities was computed with plain arithmetic, so a
group with unrepresentably many combinations panicked in debug builds and mapped
distinct groups to the same identifier in release builds.
---
 derive/src/label_group/to_tokens.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 827ef0d..1e9c5e8 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -278,12 +278,12 @@ impl ToTokens for SetEncode<'_> {
 
         tokens.extend(quote! {
             fn encode(&self, value: Self::Group<'_>) -> Option<Self::Unique> {
-                let mut mul = 1;
-                let mut index = 0;
+                let mut mul = Some(1usize);
+                let mut index = 0usize;
 
                 #(
-                    index += #fixed_encodes * mul;
-                    mul *= #cardinalities;
+                    index = #fixed_encodes.checked_mul(mul?)?.checked_add(index)?;
+                    mul = mul.and_then(|mul| mul.checked_mul(#cardinalities));
                 )*
 
                 Some((
-- 
2.43.0


From a027adf76d02505502aadb728dfcd4ae843a45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:59 +0000
Subject: [PATCH 11/11] fix: report raw identifier variants without the r#
 prefix

---
 derive/src/value/to_tokens.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index 53a29fa..3e2e894 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
+use syn::ext::IdentExt;
 
 use super::FixedCardinalityLabel;
 
@@ -25,7 +26,7 @@ impl ToTokens for FixedCardinalityLabel {
                 quote_spanned!(int.span() => v.write_int(#int))
             } else {
                 let name = var.attrs.rename.as_ref().map_or_else(
-                    || rename_all.apply(&var.ident.to_string()),
+                    || rename_all.apply(&var.ident.unraw().to_string()),
                     syn::LitStr::value,
                 );
                 quote_spanned!(var.span => v.write_str(#name))
-- 
2.43.0


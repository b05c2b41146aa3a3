From a0d68671e90c04bd372c1df8a0b294c619d08df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 01/27] Simulation hook (cfg vsim): take std from the
 simulator, expose the WAL segment

---
 src/lib.rs     | 9 +++++++++
 src/wal/mod.rs | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index da5fcba..4566bb8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,9 @@
 #![allow(unused_must_use)]
 
+// Simulation builds take threads, locks, channels, clock, files and sockets from the simulator.
+#[cfg(vsim)]
+extern crate vsim_std as std;
+
 use std::time::Duration;
 
 mod common;
@@ -24,6 +28,11 @@ pub use db::MonolithDb;
 pub use backend::TiKvRawBackendSingleton;
 pub use backend::TiKvBackendConfigFile;
 
+#[cfg(vsim)]
+pub mod vsim_hooks {
+    pub use crate::wal::{Entry, EntryType, FlushPolicy, Segment};
+}
+
 pub type Timestamp = u64;
 pub type Value = f64;
 
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 5f3a12f..1e8083b 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -5,6 +5,9 @@ use std::sync::{Arc, Mutex};
 mod segment;
 mod writer;
 
+#[cfg(vsim)]
+pub use self::segment::Segment;
+
 /// Note that we only use the first three byte in this magic number
 /// User can still use the remaining 5 bytes to add more metadata
 /// Like WAL for different component
-- 
2.43.0


From 052a582f3777400108f75a8dfea753191e351141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 02/27] fix: hold the chunk's read lock for the whole query

The guard was dropped at the end of the statement that took it, so queries
ran concurrently with half-finished inserts.
---
 src/chunk/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 5bfa9e9..8f4a092 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -142,7 +142,8 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         start_time: Timestamp,
         end_time: Timestamp,
     ) -> Result<Vec<TimeSeries>> {
-        self.mutex
+        let _m = self
+            .mutex
             .read()
             .expect("Poisoned mutex when try to read from chunk");
         if !is_duration_overlap(self.start_time, self.end_time, start_time, end_time) {
-- 
2.43.0


From f2f123fd7589f5a66a506c0e97779293036f3095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 03/27] fix: a series without points in the range must not hide
 the others

Storage reports such a series as NotFoundErr or OutOfRangeErr, and that error
aborted the query of the whole chunk.
---
 src/chunk/chunk.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 8f4a092..6cc17c7 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -153,7 +153,11 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
 
         let mut res = Vec::new();
         for (id, metadata) in candidates {
-            let data = self.storage.read_time_series(id, start_time, end_time)?;
+            let data = match self.storage.read_time_series(id, start_time, end_time) {
+                // the series has no point at all, or none inside the queried range
+                Err(MonolithErr::NotFoundErr) | Err(OutOfRangeErr(_, _)) => continue,
+                res => res?,
+            };
             if data.len() == 0 {
                 continue; //skip empty series
             }
-- 
2.43.0


From e83214a8c5220610dd43759d57811ca5c3f2e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 04/27] fix: report a failed write to an existing series

Both the chunk and the sled storage dropped the error of appending to a
series, so a write that was not stored was acknowledged.
---
 src/chunk/chunk.rs          | 2 +-
 src/storage/sled_storage.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 6cc17c7..b56f0e1 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -130,7 +130,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         } else {
             //only one, skip the choose process
             self.storage
-                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value);
+                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value)?;
         }
 
         Ok(())
diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index d03587a..2f7fe65 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -70,7 +70,7 @@ impl Storage for SledStorage {
         if let Some(current_val) = tree.get(key_name.clone())? {
             let mut current_val_bytes = current_val.to_vec();
             current_val_bytes.append(&mut value);
-            tree.set(key_name.clone(), current_val_bytes);
+            tree.set(key_name.clone(), current_val_bytes)?;
         } else {
             tree.set(key_name.clone(), value)?;
         }
-- 
2.43.0


From 911a200325093d9fdfb9b2e620b82c2100b9e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 05/27] fix: make the chunk swap atomic for queries

The stale chunk was added to the secondary chunks before the current chunk was
replaced, and a query looked at the two separately, so points could be
returned twice during a swap.
---
 src/db.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 5208abb..612b301 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -207,10 +207,12 @@ where
     ) -> Result<LabelPointPairs> {
         let mut res = HashMap::<Labels, Vec<TimePoint>>::new();
         let res_ref = &mut res;
+        //no chunk swap while we go through the chunks
+        let current = self.current_chuck.read().unwrap();
         //insert in reverse time order in order to quickly append vec
         {
             //check current chunk
-            let _c = &self.current_chuck.read().unwrap();
+            let _c = &current;
             let _res = _c.query(labels.clone(), start_time, end_time);
             if _res.is_ok() {
                 for ref t in _res.unwrap() {
@@ -303,15 +305,13 @@ where
         );
 
         let chunk = Chunk::<S, I>::new(storage, indexer, &chunk_opt);
-        {
-            let stale = self.current_chuck.read().unwrap();
-            self.secondary_chunks.write().unwrap().push(stale.clone());
-        }
         {
             let mut current = self.current_chuck.write().unwrap(); //will also block all read util swap finish
             let (_, end_time) = current.start_end_time();
             info!("The old chunk with end time {} is closing", end_time);
             current.close(); //close the stale one
+            // a query holds the lock of the current chunk throughout, so it sees the stale chunk exactly once
+            self.secondary_chunks.write().unwrap().push(current.clone());
             *current = Arc::new(chunk); //crate new one
         }
         Ok(())
-- 
2.43.0


From aa23455e05dde36f77609e3c5e394a7f81cd9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 06/27] fix: a query that cannot read a chunk reports the error

The database skipped a chunk it failed to read, and the server turned a failed
query into an empty result, so clients got silently incomplete answers.
---
 src/db.rs     | 40 +++++++++++++++++-----------------------
 src/server.rs | 21 ++++++++++-----------
 2 files changed, 27 insertions(+), 34 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 612b301..5cd022d 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -213,15 +213,13 @@ where
         {
             //check current chunk
             let _c = &current;
-            let _res = _c.query(labels.clone(), start_time, end_time);
-            if _res.is_ok() {
-                for ref t in _res.unwrap() {
+            if _c.is_with_range(start_time, end_time) {
+                for ref t in _c.query(labels.clone(), start_time, end_time)? {
                     res_ref.insert(
                         t.meta_data().clone(),
                         t.time_points().clone().into_iter().rev().collect(),
                     );
                 }
-            } else {
             }
         };
         {
@@ -229,25 +227,21 @@ where
             let chunks = &self.secondary_chunks.read().unwrap();
             for _c in chunks.iter().rev() {
                 if _c.is_with_range(start_time, end_time) {
-                    let _res = _c.query(labels.clone(), start_time, end_time);
-                    if _res.is_ok() {
-                        for ref t in _res.unwrap() {
-                            let mut current_val = t
-                                .time_points()
-                                .clone()
-                                .into_iter()
-                                .rev()
-                                .collect::<Vec<TimePoint>>();
-                            match res_ref.get_mut(t.meta_data()) {
-                                Some(val) => {
-                                    val.append(&mut current_val);
-                                }
-                                None => {
-                                    res_ref.insert(t.meta_data().clone(), current_val);
-                                }
-                            };
-                        }
-                    } else {
+                    for ref t in _c.query(labels.clone(), start_time, end_time)? {
+                        let mut current_val = t
+                            .time_points()
+                            .clone()
+                            .into_iter()
+                            .rev()
+                            .collect::<Vec<TimePoint>>();
+                        match res_ref.get_mut(t.meta_data()) {
+                            Some(val) => {
+                                val.append(&mut current_val);
+                            }
+                            None => {
+                                res_ref.insert(t.meta_data().clone(), current_val);
+                            }
+                        };
                     }
                 };
             }
diff --git a/src/server.rs b/src/server.rs
index 45f924a..87e20dc 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -136,8 +136,9 @@ where
                 read_rq
                     .queries
                     .iter()
-                    .map(|q| {
-                        self.db
+                    .map(|q| -> Result<Vec<crate::proto::TimeSeries>> {
+                        Ok(self
+                            .db
                             .query(
                                 Labels::from_vec(
                                     q.matchers
@@ -147,21 +148,19 @@ where
                                 ),
                                 q.start_timestamp_ms as Timestamp,
                                 q.end_timestamp_ms as Timestamp,
-                            )
-                            .ok()
-                            .unwrap_or(Vec::new())
+                            )?
                             .iter()
                             .map(crate::proto::TimeSeries::from)
-                            .collect::<Vec<crate::proto::TimeSeries>>()
+                            .collect::<Vec<crate::proto::TimeSeries>>())
                     })
-                    .map(|v: Vec<crate::proto::TimeSeries>| -> QueryResult {
-                        QueryResult {
-                            timeseries: RepeatedField::from(v),
+                    .map(|res| -> Result<QueryResult> {
+                        Ok(QueryResult {
+                            timeseries: RepeatedField::from(res?),
                             unknown_fields: Default::default(),
                             cached_size: Default::default(),
-                        }
+                        })
                     })
-                    .collect::<Vec<crate::proto::QueryResult>>(),
+                    .collect::<Result<Vec<crate::proto::QueryResult>>>()?,
             ),
             unknown_fields: Default::default(),
             cached_size: Default::default(),
-- 
2.43.0


From e82bfec3eb82a287e58ecb70c749369352168ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 07/27] fix: return the points of a series in time order when
 chunks overlap

---
 src/db.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 5cd022d..d3e1acb 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -253,10 +253,10 @@ where
             .filter(|o| o.is_some())
             .map(|o| o.unwrap())
             .map(|(labels, points)| {
-                (
-                    labels.clone(),
-                    points.iter().cloned().rev().collect::<Vec<TimePoint>>(),
-                )
+                let mut points = points.iter().cloned().rev().collect::<Vec<TimePoint>>();
+                // chunks may overlap, e.g. if the wall clock has been set back
+                points.sort();
+                (labels.clone(), points)
             })
             .collect();
         Ok(res_vec)
-- 
2.43.0


From cc0250588af04596b6aa7a176ebe7564f383bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 08/27] fix: label sets of different size are not equal

Equality compared only the first set's labels: a prefix was equal to the whole,
and a longer set compared with a shorter one panicked. Queries merge series by it.
---
 src/common/label.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/common/label.rs b/src/common/label.rs
index 47151f0..771601f 100644
--- a/src/common/label.rs
+++ b/src/common/label.rs
@@ -98,12 +98,7 @@ impl Eq for Labels {}
 
 impl PartialEq for Labels {
     fn eq(&self, other: &Self) -> bool {
-        for i in 0..self.len() {
-            if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
-                return false;
-            }
-        }
-        true
+        self.0 == other.0
     }
 }
 
-- 
2.43.0


From 009fcabd42f9a22593e773b630e34b2893cf7f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 09/27] fix: encode every label set unambiguously

Commas and equal signs in names and values were not escaped, label sets
starting with R shared keys with the reverse index, labels with equal names
were not ordered, and the empty set could not be decoded, so different label
sets got the same series or unreadable metadata.
---
 src/common/label.rs         | 10 +++++--
 src/indexer/sled_indexer.rs | 58 +++++++++++++++++++++++++------------
 src/indexer/tikv_indexer.rs |  2 ++
 3 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/src/common/label.rs b/src/common/label.rs
index 771601f..6a5f6e3 100644
--- a/src/common/label.rs
+++ b/src/common/label.rs
@@ -45,13 +45,13 @@ impl Label {
 
 impl Ord for Label {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.key.cmp(&other.key)
+        (&self.key, &self.value).cmp(&(&other.key, &other.value))
     }
 }
 
 impl PartialOrd for Label {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        self.key.partial_cmp(&other.key)
+        Some(self.cmp(other))
     }
 }
 
@@ -133,6 +133,12 @@ impl Labels {
         self.0.sort();
     }
 
+    /// Bring the labels into the one form all equal label sets share
+    pub fn normalize(&mut self) {
+        self.0.sort();
+        self.0.dedup();
+    }
+
     pub fn pop(&mut self) -> Option<Label> {
         self.0.pop()
     }
diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 0beeccc..4737706 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -108,6 +108,8 @@ impl Indexer for SledIndexer {
 
     fn create_index(&self, labels: Labels, time_series_id: u64) -> Result<()> {
         let tree = &self.storage;
+        let mut labels = labels;
+        labels.normalize();
 
         // from label set to time series id
         let label_key = KvIndexerProcessor::encode_labels(&labels, true);
@@ -254,8 +256,19 @@ mod tests {
 pub(crate) struct KvIndexerProcessor {}
 
 impl KvIndexerProcessor {
+    /// Escape the characters that separate labels and their parts
+    fn _escape(raw: &str) -> String {
+        raw.replace('\\', "\\\\")
+            .replace(',', "\\,")
+            .replace('=', "\\=")
+    }
+
     fn _encode_label(label: &Label) -> String {
-        format!("{}={}", label.key(), label.value())
+        format!(
+            "{}={}",
+            KvIndexerProcessor::_escape(label.key()),
+            KvIndexerProcessor::_escape(label.value())
+        )
     }
 
     /// encode single label as key
@@ -274,7 +287,7 @@ impl KvIndexerProcessor {
     /// set __with_prefix__ to true to add prefix on result
     pub fn encode_labels(labels: &Labels, with_prefix: bool) -> String {
         let mut time_series_meta = labels.clone();
-        time_series_meta.sort();
+        time_series_meta.normalize();
         let mut res = String::new();
         for label in time_series_meta.vec() {
             let mut label_str = KvIndexerProcessor::_encode_label(label);
@@ -283,6 +296,9 @@ impl KvIndexerProcessor {
         }
         res.pop(); //remove last ,
         if with_prefix {
+            if res.starts_with('R') {
+                res.insert(0, '\\'); // keep it apart from the keys with LABEL_REVERSE_PREFIX
+            }
             res.insert_str(0, LABEL_PREFIX);
         }
         res
@@ -297,23 +313,29 @@ impl KvIndexerProcessor {
         if is_key {
             _labels_str.replace_range(..LABEL_PREFIX.len(), "");
         }
-        let pairs: Vec<&str> = _labels_str.split(",").collect();
         let mut res = Vec::new();
-        for pair in pairs {
-            // Per Prometheus doc https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels
-            // Label name must match regex [a-zA-Z_][a-zA-Z0-9_]*
-            // Thus, we can always use the first = to split label name from label value
-            let equal_idx = pair.find("=").ok_or(MonolithErr::InternalErr(
-                "Cannot parse label data".to_string(),
-            ))?;
-            let (key, value_with_equal) = pair.split_at(equal_idx);
-            let value = {
-                let mut s = String::from(value_with_equal);
-                s.remove(0);
-                s
-            };
-            let label = Label::from_key_value(key, value.as_str());
-            res.push(label)
+        if _labels_str.is_empty() {
+            return Ok(Labels::from_vec(res));
+        }
+        let (mut key, mut current) = (None, String::new());
+        let mut chars = _labels_str.chars();
+        loop {
+            match chars.next() {
+                Some('\\') => current.extend(chars.next()),
+                // Use the first = to split label name from label value
+                Some('=') if key.is_none() => key = Some(std::mem::replace(&mut current, String::new())),
+                end @ None | end @ Some(',') => {
+                    let label_key: String = key.take().ok_or(MonolithErr::InternalErr(
+                        "Cannot parse label data".to_string(),
+                    ))?;
+                    let value = std::mem::replace(&mut current, String::new());
+                    res.push(Label::new(label_key, value));
+                    if end.is_none() {
+                        break;
+                    }
+                }
+                Some(c) => current.push(c),
+            }
         }
         Ok(Labels::from_vec(res))
     }
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index c9b0449..68027df 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -113,6 +113,8 @@ impl Indexer for TiKvIndexer {
     }
 
     fn create_index(&self, labels: Labels, time_series_id: TimeSeriesId) -> Result<()> {
+        let mut labels = labels;
+        labels.normalize();
         let _indexer_id_str: String =
             String::from_utf8_lossy(self.indexer_identifier.clone().as_slice()).into();
 
-- 
2.43.0


From 073bfa8ff3d56ade83b6f5caa2c444ad46d1dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 10/27] fix: a label no series has must not be left out of the
 lookup

Both indexers skipped such a label, so the query was answered as if it had not
been asked for. The TiKV indexer did the same for labels it failed to read.
---
 src/indexer/sled_indexer.rs |  5 +++--
 src/indexer/tikv_indexer.rs | 28 ++++++++++++----------------
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 4737706..28e1977 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -87,8 +87,9 @@ impl Indexer for SledIndexer {
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         let mut ts_vec = Vec::new();
         for label in labels.vec() {
-            if let Some(ts) = self.get_id(label)? {
-                ts_vec.push(ts as Vec<TimeSeriesId>);
+            match self.get_id(label)? {
+                Some(ts) => ts_vec.push(ts as Vec<TimeSeriesId>),
+                None => return Ok(Vec::new()), // no series has this label
             }
         }
 
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index 68027df..646e60f 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -69,22 +69,18 @@ impl Indexer for TiKvIndexer {
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         // Get raw value from tikv
-        let query_res = labels
-            .vec()
-            .into_iter()
-            .map(|label| {
-                self.add_indexer_id(
-                    KvIndexerProcessor::encode_label(label)
-                        .into_bytes()
-                        .as_mut(),
-                )
-            })
-            .map(|key| self.client.get(key)) //todo: error handling
-            .filter(|res| res.is_ok())
-            .map(|res| res.unwrap())
-            .filter(|res| res.is_some())
-            .map(|res| res.unwrap())
-            .collect::<Vec<Vec<u8>>>();
+        let mut query_res: Vec<Vec<u8>> = vec![];
+        for label in labels.vec() {
+            let key = self.add_indexer_id(
+                KvIndexerProcessor::encode_label(label)
+                    .into_bytes()
+                    .as_mut(),
+            );
+            match self.client.get(key)? {
+                Some(val) => query_res.push(val),
+                None => return Ok(Vec::new()), // no series has this label
+            }
+        }
         // convert into time series id
         let mut time_series_ids: Vec<Vec<TimeSeriesId>> = vec![];
         for val in query_res {
-- 
2.43.0


From 7714d065324711c73bc22f03e8e61f8020b45bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 11/27] fix: the TiKV indexer reports series metadata it cannot
 read

Series whose metadata could not be read were left out of the result.
---
 src/indexer/tikv_indexer.rs | 46 +++++++++++--------------------------
 1 file changed, 13 insertions(+), 33 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index 646e60f..af1dc2f 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -32,39 +32,19 @@ impl Indexer for TiKvIndexer {
     ) -> Result<Vec<(TimeSeriesId, Labels)>> {
         let ids = self.get_series_id_contains_labels(labels.clone())?;
 
-        //todo: refactor this.
-        Ok(ids
-            .iter()
-            // Convert into keys
-            .map(|id| {
-                (
-                    *id,
-                    self.add_indexer_id(
-                        KvIndexerProcessor::encode_time_series_id(*id)
-                            .into_bytes()
-                            .as_mut(),
-                    ),
-                )
-            })
-            // Get raw value from db store
-            .map(|(id, key)| (id, self.client.get(key)))
-            // Choose the valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap the valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            // Choose the one with value
-            .filter(|(_id, option)| option.is_some())
-            // Unwrap value
-            .map(|(id, option)| (id, option.unwrap()))
-            // Convert Vec<u8> into String
-            .map(|(id, raw)| (id, String::from_utf8_lossy(raw.as_slice()).to_string()))
-            // Convert String into labels
-            .map(|(id, raw)| (id, KvIndexerProcessor::decode_labels(raw, false)))
-            // Choose valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            .collect())
+        let mut res = Vec::new();
+        for id in ids {
+            let key = self.add_indexer_id(
+                KvIndexerProcessor::encode_time_series_id(id)
+                    .into_bytes()
+                    .as_mut(),
+            );
+            if let Some(raw) = self.client.get(key)? {
+                let labels_str = String::from_utf8_lossy(raw.as_slice()).to_string();
+                res.push((id, KvIndexerProcessor::decode_labels(labels_str, false)?));
+            }
+        }
+        Ok(res)
     }
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
-- 
2.43.0


From 1c9a8a7b8805b211611b492f2c5a7a808f4af178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 12/27] fix: index a new series completely or report the
 failure

Both indexers ignored failed writes of index entries. The entry that leads from
the label set to the series is now written last, so that a failed attempt can
be repeated instead of leaving a series that queries never find.
---
 src/indexer/sled_indexer.rs | 10 ++++----
 src/indexer/tikv_indexer.rs | 47 ++++++++++++++-----------------------
 2 files changed, 23 insertions(+), 34 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 28e1977..7fe5f9a 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -120,13 +120,12 @@ impl Indexer for SledIndexer {
                 "Duplicate label => id pair found in storage".to_string(),
             ));
         }
-        tree.set(label_key, format!("{}", time_series_id).into_bytes());
 
         // from time series to label set
         tree.set(
             KvIndexerProcessor::encode_time_series_id(time_series_id),
             KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-        );
+        )?;
 
         // from label to time series ids
         let keys: Vec<String> = labels
@@ -142,10 +141,13 @@ impl Indexer for SledIndexer {
                     format!("{},{}", val_str, time_series_id)
                 }
             };
-            tree.set(&key, val.into_bytes());
-            tree.flush();
+            tree.set(&key, val.into_bytes())?;
         }
 
+        // the label set leads to the series only once the rest of its index is in place
+        tree.set(label_key, format!("{}", time_series_id).into_bytes())?;
+        tree.flush()?;
+
         Ok(())
     }
 }
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index af1dc2f..cdeb989 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -100,43 +100,30 @@ impl Indexer for TiKvIndexer {
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-            );
+            )?;
         }
 
         {
-            //Create map between full label set to time series id
+            // Create Reverse Search
+            for label in labels.vec() {
+                let key = self.add_indexer_id(
+                    KvIndexerProcessor::encode_label(label)
+                        .into_bytes()
+                        .as_mut(),
+                );
+                let mut val = self.client.get(key.clone())?.unwrap_or_default();
+                val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
+                self.client.set(key, val)?;
+            }
+        }
+
+        {
+            //Create map between full label set to time series id, only once the rest of the index is in place
             let key = KvIndexerProcessor::encode_labels(&labels, true);
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 Vec::from(&time_series_id.to_be_bytes()[..]),
-            );
-        }
-
-        {
-            // Create Reverse Search
-            labels
-                .vec()
-                .iter()
-                .map(|label| {
-                    self.add_indexer_id(
-                        KvIndexerProcessor::encode_label(label)
-                            .into_bytes()
-                            .as_mut(),
-                    )
-                })
-                .map(|key| (key.clone(), self.client.get(key.to_vec())))
-                .filter(|(_key, res)| res.is_ok())
-                .map(|(key, res)| match res.unwrap() {
-                    Some(mut val) => {
-                        val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
-                        self.client.set(key.clone(), val);
-                    }
-                    None => {
-                        self.client
-                            .set(key.clone(), Vec::from(&time_series_id.to_be_bytes()[..]));
-                    }
-                })
-                .collect::<Vec<()>>();
+            )?;
         }
 
         Ok(())
-- 
2.43.0


From a1f5062bd548cfcbad886237f73933bbe389aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 13/27] fix: trim series with repeated or out-of-order
 timestamps correctly

The binary search picked an arbitrary one of equal timestamps, subtracted from
index 0, and ran over points that sled keeps in arrival order, so queries lost
points at the edges of their range or panicked.
---
 src/storage/common.rs       | 15 ++++++---------
 src/storage/sled_storage.rs |  2 ++
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/storage/common.rs b/src/storage/common.rs
index 1fbdead..b82079b 100644
--- a/src/storage/common.rs
+++ b/src/storage/common.rs
@@ -35,15 +35,12 @@ pub trait Storage: Sized + HasTypeName {
         end_time: Timestamp,
     ) -> Result<Vec<TimePoint>> {
         //series should already sorted
-        let left = match series.binary_search(&TimePoint::new(start_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx,
-        };
-        let right = match series.binary_search(&TimePoint::new(end_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx - 1,
-        };
-        let res = &series[left..=right];
+        let left = series.partition_point(|point| point.timestamp < start_time);
+        let right = series.partition_point(|point| point.timestamp <= end_time);
+        if left >= right {
+            return Ok(Vec::new());
+        }
+        let res = &series[left..right];
         Ok(Vec::from(res))
     }
 }
diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index 2f7fe65..c3fd668 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -50,6 +50,8 @@ impl SledStorage {
                     res.push(KvStorageProcessor::decode_time_point(timepoint_bytes)?);
                 }
 
+                // points are stored in the order they arrive
+                res.sort();
                 return Ok(Some(res));
             }
         }
-- 
2.43.0


From aea1e34b6694612fc0449bff23250551964fd400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 14/27] fix: keep the documented layout of a chunk's TiKV
 identifiers

The halves of the mapping were mixed up, every storage got an empty identifier,
so all chunks shared their series, and a restart looked for data under
identifiers nothing had been written with. Failed writes of it were ignored.
---
 src/backend/tikv.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/backend/tikv.rs b/src/backend/tikv.rs
index 3771225..43fb05f 100644
--- a/src/backend/tikv.rs
+++ b/src/backend/tikv.rs
@@ -20,16 +20,17 @@ pub trait TiKvRawBackend: Send + Sync {
             id
         });
         if is_indexer {
-            let mut indexer_id = Uuid::new_v4().as_bytes().to_vec();
-            indexer_id.append(value[..16].to_vec().as_mut());
-            self.set(chunk_identifier.clone(), indexer_id.clone());
+            let indexer_id = Uuid::new_v4().as_bytes().to_vec();
+            let mut res = indexer_id.clone();
+            res.append(value[16..].to_vec().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(indexer_id)
         } else {
-            let mut storage_id = Uuid::new_v4().as_bytes().to_vec();
+            let storage_id = Uuid::new_v4().as_bytes().to_vec();
             let mut res = vec![];
-            res.append(value[16..].to_vec().as_mut());
-            res.append(storage_id.as_mut());
-            self.set(chunk_identifier.clone(), res);
+            res.append(value[..16].to_vec().as_mut());
+            res.append(storage_id.clone().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(storage_id)
         }
     }
-- 
2.43.0


From 7fca6e4e22064d4987f1b0b2de661cc7ffc74147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 15/27] fix: a point on the window's bounds must not fail its
 batch

The batch filter let through points at the bounds, which the chunk refuses, so
the write of all points was reported as failed.
---
 src/db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.rs b/src/db.rs
index d3e1acb..cda9f87 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -179,7 +179,7 @@ where
         let res = timepoints
             .into_iter()
             .filter(|tp| {
-                tp.timestamp >= start_time && tp.timestamp <= end_time && tp.timestamp != 0
+                tp.timestamp > start_time && tp.timestamp < end_time && tp.timestamp != 0
             })
             .map(|tp| _c.insert(labels.clone(), tp))
             .filter(|res| res.is_err())
-- 
2.43.0


From 4ed97a07b52729a8455da76aa5d6cc280d39e077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 16/27] fix: keep the end time of a chunk when it is read back

It was cut to the time of the restart, so points stamped later than that, which
the chunk had accepted, were no longer found.
---
 src/db.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index cda9f87..3f2e6c1 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -144,14 +144,8 @@ where
                     // Read Chunk Options from metadata.json
                     let path = PathBuf::from(path_str.clone());
                     let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
-                    let current_time = get_current_timestamp();
                     chunk_opts.start_time = Some(start_time);
-                    // reset end time is necessary
-                    chunk_opts.end_time = Some(if end_time > current_time {
-                        current_time
-                    } else {
-                        end_time
-                    });
+                    chunk_opts.end_time = Some(end_time);
 
                     let storage = storage_builder
                         .read_from_chunk(&path.join("storage"), Some(&chunk_opts))?;
-- 
2.43.0


From cbb4cf013c00c18578aa9cfa9c9c86828dc83305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 17/27] fix: write metadata files durably and in one step

A crash, a full disk or an unreadable file could leave a database that never
opens again (empty metadata, chunk directory without metadata), lose a chunk's
metadata after its data was stored, or overwrite the recorded engine types.
---
 src/chunk/chunk.rs  | 41 +++++++++++++++++++++++++----------------
 src/common/utils.rs | 14 ++++++++++++++
 src/db.rs           | 41 +++++++++++++++++++++++------------------
 3 files changed, 62 insertions(+), 34 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index b56f0e1..85d955b 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -1,7 +1,7 @@
 use crate::common::label::Labels;
 use crate::common::time_point::TimePoint;
 use crate::common::time_series::TimeSeries;
-use crate::common::utils::{get_current_timestamp, is_duration_overlap};
+use crate::common::utils::{get_current_timestamp, is_duration_overlap, write_file_atomically};
 use crate::common::IdGenerator;
 use crate::{MonolithErr, Result, Timestamp, CHUNK_METADATA_FILENAME, DEFAULT_CHUNK_SIZE};
 
@@ -15,8 +15,6 @@ use std::sync::RwLock;
 
 use serde::{Deserialize, Serialize};
 use std::fs;
-use std::fs::File;
-use std::io::BufWriter;
 
 /// ChunkOps contains all options for chunk
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
@@ -29,16 +27,22 @@ pub struct ChunkOpts {
 
 impl ChunkOpts {
     pub fn read_config_from_dir(dir: &Path) -> Result<Self> {
-        let content = fs::read_to_string(dir.join(CHUNK_METADATA_FILENAME));
-        return if content.is_ok() {
-            let opts: ChunkOpts = serde_json::from_str(content.unwrap().as_str())?;
-            Ok(opts)
-        } else {
-            error!(
-                "Cannot open option file from dir {}",
-                dir.as_os_str().to_str().unwrap_or("<unreadable path>")
-            );
-            Err(MonolithErr::NotFoundErr)
+        return match fs::read_to_string(dir.join(CHUNK_METADATA_FILENAME)) {
+            Ok(content) => {
+                let opts: ChunkOpts = serde_json::from_str(content.as_str())?;
+                Ok(opts)
+            }
+            Err(err) => {
+                error!(
+                    "Cannot open option file from dir {}",
+                    dir.as_os_str().to_str().unwrap_or("<unreadable path>")
+                );
+                if err.kind() == std::io::ErrorKind::NotFound {
+                    Err(MonolithErr::NotFoundErr)
+                } else {
+                    Err(err.into())
+                }
+            }
         };
     }
 
@@ -47,9 +51,14 @@ impl ChunkOpts {
         // only write when start time and end time is not null
         if self.start_time.is_some() && self.end_time.is_some() {
             std::fs::create_dir_all(dir)?;
-            let file = File::create(dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)))?;
-            let mut writer = BufWriter::new(file);
-            serde_json::to_writer(&mut writer, &self.clone());
+            write_file_atomically(
+                &dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)),
+                &serde_json::to_vec(&self)?,
+            )?;
+            // the chunk's own directory must not get lost either
+            if let Some(parent) = dir.parent() {
+                fs::File::open(parent)?.sync_all()?;
+            }
         }
         Ok(())
     }
diff --git a/src/common/utils.rs b/src/common/utils.rs
index 9f9c33e..90e1637 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -2,6 +2,7 @@ use crate::ops::OrderIntersect;
 use crate::time_series::TimeSeriesId;
 use crate::{MonolithErr, Result, Timestamp};
 use std::fs::File;
+use std::io::Write;
 use std::ops::Index;
 use std::path::Path;
 use std::sync::mpsc::{channel, Receiver, Sender, TryRecvError};
@@ -127,6 +128,19 @@ pub fn intersect_time_series_id_vec(mut ts: Vec<Vec<TimeSeriesId>>) -> Result<Ve
     }
 }
 
+/// Write a file so that, whenever a crash happens, it has either its old content or the whole new one
+pub fn write_file_atomically(path: &Path, content: &[u8]) -> Result<()> {
+    let tmp_path = path.with_extension("tmp");
+    let mut file = File::create(&tmp_path)?;
+    file.write_all(content)?;
+    file.sync_all()?;
+    fs::rename(&tmp_path, path)?;
+    if let Some(dir) = path.parent() {
+        File::open(dir)?.sync_all()?;
+    }
+    Ok(())
+}
+
 /// Read file from dir, filename must be constant
 ///
 /// Return None if no such file found
diff --git a/src/db.rs b/src/db.rs
index 3f2e6c1..90f1809 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -10,13 +10,13 @@ use crate::common::label::Labels;
 use crate::common::metadata::DbMetadata;
 use crate::common::time_point::TimePoint;
 use crate::common::time_series::LabelPointPairs;
-use crate::common::utils::{decode_chunk_dir, encode_chunk_dir, get_current_timestamp};
+use crate::common::utils::{
+    decode_chunk_dir, encode_chunk_dir, get_current_timestamp, write_file_atomically,
+};
 use crate::indexer::Indexer;
 use crate::option::DbOpts;
 use crate::storage::Storage;
 use crate::{Builder, MonolithErr, Result, Timestamp, DB_METADATA_FILENAME};
-use std::fs::File;
-use std::io::BufWriter;
 
 /// MonolithDb is thread-safe
 pub struct MonolithDb<S: Storage, I: Indexer>
@@ -67,8 +67,8 @@ where
         ));
 
         //write metadata into chunk config
-        storage_builder.write_to_chunk(&chunk_dir);
-        indexer_builder.write_to_chunk(&chunk_dir);
+        storage_builder.write_to_chunk(&chunk_dir)?;
+        indexer_builder.write_to_chunk(&chunk_dir)?;
         if let Err(_) = chunk_opt.write_config_to_dir(chunk_dir.as_path()) {
             error!("Cannot create metadata file for chunk");
             return Err(MonolithErr::InternalErr(
@@ -105,19 +105,20 @@ where
     /// Check if there is a metadata file in base_dir. If it does, then read file and check if the existing Indexer and Storage
     /// is the same type. If it doesn't, then create one base on db_metadata
     fn read_or_create_metadata(base_dir: &Path, db_metadata: &DbMetadata) -> Result<()> {
-        let content = fs::read_to_string(base_dir.join(DB_METADATA_FILENAME));
-
-        if content.is_ok() {
-            let metadata: DbMetadata = serde_json::from_str(content.unwrap().as_str())?;
-            if metadata.indexer_type != db_metadata.indexer_type
-                || metadata.storage_type != db_metadata.storage_type
-            {
-                return Err(MonolithErr::OptionErr);
+        let metadata_path = base_dir.join(DB_METADATA_FILENAME);
+        match fs::read_to_string(&metadata_path) {
+            Ok(content) => {
+                let metadata: DbMetadata = serde_json::from_str(content.as_str())?;
+                if metadata.indexer_type != db_metadata.indexer_type
+                    || metadata.storage_type != db_metadata.storage_type
+                {
+                    return Err(MonolithErr::OptionErr);
+                }
+            }
+            Err(ref err) if err.kind() == std::io::ErrorKind::NotFound => {
+                write_file_atomically(&metadata_path, &serde_json::to_vec(db_metadata)?)?;
             }
-        } else {
-            let file = File::create(base_dir.join(DB_METADATA_FILENAME))?;
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, db_metadata)?;
+            Err(err) => return Err(err.into()),
         }
 
         Ok(())
@@ -143,7 +144,11 @@ where
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
                     let path = PathBuf::from(path_str.clone());
-                    let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
+                    let mut chunk_opts = match ChunkOpts::read_config_from_dir(&path) {
+                        // a crash came before the chunk was set up, so nothing can be stored in it
+                        Err(MonolithErr::NotFoundErr) => continue,
+                        res => res?,
+                    };
                     chunk_opts.start_time = Some(start_time);
                     chunk_opts.end_time = Some(end_time);
 
-- 
2.43.0


From dcd72fa3cf63012664b8845a45b4a686c08629ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 18/27] fix: never start a chunk in the directory of an
 existing one

After a restart within the same millisecond or with the clock set back the
directory name repeated, and the new chunk handed out the old one's series ids
again, mixing up their series.
---
 src/common/utils.rs | 16 ++++++++++++++++
 src/db.rs           | 11 +++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/common/utils.rs b/src/common/utils.rs
index 90e1637..62b4737 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -33,6 +33,22 @@ pub fn encode_chunk_dir(start_time: Timestamp, end_time: Timestamp) -> String {
     format!("{:x}", res)
 }
 
+/// First start time, not before the given one, for which base_dir has no chunk yet
+pub fn find_free_start_time(
+    base_dir: &Path,
+    start_time: Timestamp,
+    chunk_size: Timestamp,
+) -> Timestamp {
+    let mut res = start_time;
+    while base_dir
+        .join(encode_chunk_dir(res, res + chunk_size))
+        .exists()
+    {
+        res += 1;
+    }
+    res
+}
+
 pub fn decode_chunk_dir(dir_name: String) -> Result<(Timestamp, Timestamp)> {
     let decimal = u128::from_str_radix(dir_name.as_str(), 16)?;
     let end_time: u64 = (decimal & (u64::max_value() as u128)) as u64;
diff --git a/src/db.rs b/src/db.rs
index 90f1809..fc34f0c 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -11,7 +11,8 @@ use crate::common::metadata::DbMetadata;
 use crate::common::time_point::TimePoint;
 use crate::common::time_series::LabelPointPairs;
 use crate::common::utils::{
-    decode_chunk_dir, encode_chunk_dir, get_current_timestamp, write_file_atomically,
+    decode_chunk_dir, encode_chunk_dir, find_free_start_time, get_current_timestamp,
+    write_file_atomically,
 };
 use crate::indexer::Indexer;
 use crate::option::DbOpts;
@@ -55,7 +56,8 @@ where
         storage_builder.write_config(&ops.base_dir)?;
 
         let chunk_size = ops.chunk_size.as_millis() as Timestamp;
-        let current_time = get_current_timestamp();
+        let current_time =
+            find_free_start_time(&ops.base_dir, get_current_timestamp(), chunk_size);
 
         let mut chunk_opt = ChunkOpts::default();
         chunk_opt.start_time = Some(current_time);
@@ -262,6 +264,11 @@ where
     }
 
     fn swap(&self, start_time: Timestamp) -> Result<()> {
+        let start_time = find_free_start_time(
+            &self.options.base_dir,
+            start_time,
+            self.options.chunk_size.as_millis() as Timestamp,
+        );
         info!("Chunk swap, new chunk with start time {}", start_time);
         let mut chunk_opt = ChunkOpts::default();
         chunk_opt.start_time = Some(start_time);
-- 
2.43.0


From a6d509f8cf1218d7c413c52addbdefc90d7e2a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 19/27] fix: repeat a chunk swap that failed

A temporary error left the database without a window for the current time until
the next swap was due.
---
 src/db.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index fc34f0c..0596576 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -98,8 +98,12 @@ where
         });
         let _db = db.clone();
         thread::spawn(move || loop {
-            let start_time = swap_rx.recv().unwrap() + 1;
-            _db.clone().swap(start_time);
+            let mut start_time = swap_rx.recv().unwrap() + 1;
+            while let Err(err) = _db.clone().swap(start_time) {
+                error!("Cannot swap chunk, {}", err);
+                thread::sleep(Duration::from_millis(std::cmp::min(chunk_size / 10 + 1, 1000)));
+                start_time = get_current_timestamp() + 1;
+            }
         });
         Ok(db.clone())
     }
-- 
2.43.0


From e23d4111f3c8380ec551cc56a28040214d60c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:32 +0000
Subject: [PATCH 20/27] fix: write every entry of a WAL segment completely or
 report the failure

Cached entries were written without their header and checksum (or not at all
under the time based policy and on close), the number based policy indexed an
empty vector and padded with default entries, short writes and errors of the
underlying writer were dropped, and content longer than the length field was
silently truncated.
---
 src/wal/mod.rs     |   6 +-
 src/wal/segment.rs | 138 ++++++++++++++++++++++++---------------------
 2 files changed, 77 insertions(+), 67 deletions(-)

diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 1e8083b..bbad6bc 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -1,6 +1,5 @@
 use crc::Hasher32;
 use std::path::PathBuf;
-use std::sync::{Arc, Mutex};
 
 mod segment;
 mod writer;
@@ -103,8 +102,9 @@ pub enum FlushPolicy {
 /// FlushCache tells segment how to cache bytes
 pub enum FlushCache {
     TimeBased {
-        handler: std::thread::JoinHandle<()>,
-        cache: Arc<Mutex<Vec<Entry>>>,
+        interval: std::time::Duration,
+        last_flush: std::time::Instant,
+        cache: Vec<Entry>,
     },
     NumBased {
         limit: usize,
diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index dd31035..e7aae42 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -2,9 +2,10 @@ use crate::wal::{Entry, FlushCache, FlushPolicy, WalErr, WAL_MAGIC_NUMBER};
 use crate::Result;
 use std::fs::File;
 use std::hash::Hasher;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 use std::sync::atomic::AtomicU64;
 use std::sync::{Arc, Mutex};
+use std::time::Instant;
 
 type FileMutex = Arc<Mutex<File>>;
 
@@ -16,50 +17,43 @@ const AVG_NUM_BYTES_IN_ENTRY: usize = 8;
 pub struct Segment<W: Write> {
     writer: W,
     cache: FlushCache,
+    // bytes of the segment that the writer hasn't taken yet
+    pending: Vec<u8>,
     crc: crc::crc64::Digest,
 }
 
 impl<W: Write> Write for Segment<W> {
     fn write(&mut self, bytes: &[u8]) -> std::io::Result<usize> {
-        self.crc.write(bytes); // update crc
-        self.writer.write(bytes)
+        self.write_pending()?;
+        let written = self.writer.write(bytes)?;
+        self.crc.write(&bytes[..written]); // update crc
+        Ok(written)
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
         let remaining = match &mut self.cache {
-            &mut FlushCache::None => vec![],
-            &mut FlushCache::NumBased {
-                limit: ref size,
-                ref mut idx,
-                ref mut cache,
-            } => {
+            FlushCache::None => vec![],
+            FlushCache::NumBased { idx, cache, .. } => {
                 *idx = 0;
-                let _cache = cache.clone();
-                *cache = vec![Entry::default(); *size];
-                _cache
-            }
-            &mut FlushCache::TimeBased { .. } => {
-                // fixme and above
-                vec![]
+                std::mem::replace(cache, vec![])
             }
-            &mut FlushCache::SizeBased {
-                ref limit,
-                ref mut cache,
-                ref mut size,
+            FlushCache::TimeBased {
+                last_flush, cache, ..
             } => {
+                *last_flush = Instant::now();
+                std::mem::replace(cache, vec![])
+            }
+            FlushCache::SizeBased { cache, size, .. } => {
                 *size = 0;
-                let _cache = cache.clone();
-                *cache = Vec::with_capacity(limit * AVG_NUM_BYTES_IN_ENTRY);
-                _cache
+                std::mem::replace(cache, vec![])
             }
         };
 
-        if remaining.len() > 0 {
-            for entry in remaining {
-                self.write(entry.content.as_slice())?;
-            }
+        for entry in remaining {
+            self.pending.extend_from_slice(entry.get_bytes().as_slice());
         }
 
+        self.write_pending()?;
         self.writer.flush()
     }
 }
@@ -70,20 +64,18 @@ impl<W> Segment<W>
 {
     pub fn new(flush_policy: FlushPolicy, mut writer: W) -> Result<Segment<W>> {
         // write magic number. Note that we don't include this when compute CRC
-        writer.write(&WAL_MAGIC_NUMBER.to_be_bytes()[..]);
-        writer.flush();
+        writer.write_all(&WAL_MAGIC_NUMBER.to_be_bytes()[..])?;
+        writer.flush()?;
 
         Ok(Segment {
             writer,
             cache: match flush_policy {
                 FlushPolicy::Immediate => FlushCache::None,
-                FlushPolicy::TimeBased(dur) => {
-                    let cache = Arc::new(Mutex::new(vec![]));
-                    FlushCache::TimeBased {
-                        handler: std::thread::spawn(|| {}), //todo: figure out how to do time based flush
-                        cache,
-                    }
-                }
+                FlushPolicy::TimeBased(interval) => FlushCache::TimeBased {
+                    interval,
+                    last_flush: Instant::now(),
+                    cache: vec![],
+                },
                 FlushPolicy::NumBased(limit) => FlushCache::NumBased {
                     limit,
                     idx: 0,
@@ -92,53 +84,71 @@ impl<W> Segment<W>
                 FlushPolicy::SizeBased(limit) => FlushCache::SizeBased {
                     limit,
                     size: 0,
-                    cache: Vec::with_capacity(limit * AVG_NUM_BYTES_IN_ENTRY),
+                    cache: Vec::with_capacity(limit / AVG_NUM_BYTES_IN_ENTRY),
                 },
             },
+            pending: vec![],
             crc: crc::crc64::Digest::new(crc::crc64::ECMA),
         })
     }
 
+    /// Hand the pending bytes to the writer. When it fails, the rest stays pending, so that the
+    /// next attempt continues where this one stopped.
+    fn write_pending(&mut self) -> std::io::Result<()> {
+        while !self.pending.is_empty() {
+            match self.writer.write(self.pending.as_slice()) {
+                Ok(0) => return Err(ErrorKind::WriteZero.into()),
+                Ok(written) => {
+                    self.crc.write(&self.pending[..written]); // update crc
+                    self.pending.drain(..written);
+                }
+                Err(ref err) if err.kind() == ErrorKind::Interrupted => {}
+                Err(err) => return Err(err),
+            }
+        }
+        Ok(())
+    }
+
     /// flush all data and close the file
     pub fn close(&mut self) -> Result<()> {
+        self.flush()?;
         let _crc = self.crc.finish();
-        self.write(&_crc.to_be_bytes())?; // append crc result
+        self.writer.write_all(&_crc.to_be_bytes())?; // append crc result
+        self.writer.flush()?;
         Ok(())
     }
 
     pub fn write_entry(&mut self, entry: Entry) -> Result<()> {
-        match &mut self.cache {
-            &mut FlushCache::None => {
-                self.write(entry.get_bytes().as_slice())?;
-                self.flush();
+        if entry.content.len() > u16::max_value() as usize {
+            // the length of the content wouldn't fit into its field
+            return Err(std::io::Error::from(ErrorKind::InvalidInput).into());
+        }
+        let need_flush = match &mut self.cache {
+            FlushCache::None => {
+                self.pending.extend_from_slice(entry.get_bytes().as_slice());
+                true
             }
-            &mut FlushCache::NumBased {
-                limit: ref size,
-                ref mut idx,
-                ref mut cache,
-            } => {
-                cache[*idx] = entry;
+            FlushCache::NumBased { limit, idx, cache } => {
+                cache.push(entry);
                 *idx += 1;
-                if idx == size {
-                    self.flush();
-                }
+                *idx >= *limit
             }
-            &mut FlushCache::TimeBased { ref mut cache, .. } => {
-                cache.lock().unwrap().push(entry);
-            }
-            &mut FlushCache::SizeBased {
-                ref mut cache,
-                ref limit,
-                ref mut size,
+            FlushCache::TimeBased {
+                interval,
+                last_flush,
+                cache,
             } => {
-                let entry_len = entry.len();
                 cache.push(entry);
-                if *size + entry_len >= *limit {
-                    self.flush();
-                } else {
-                    *size += entry_len;
-                }
+                last_flush.elapsed() >= *interval
             }
+            FlushCache::SizeBased { cache, limit, size } => {
+                *size += entry.len();
+                cache.push(entry);
+                *size >= *limit
+            }
+        };
+        if need_flush {
+            self.flush()?;
         }
         Ok(())
     }
-- 
2.43.0


From 4576bce6e3b701fa1f5fccfbcb00009deda208ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 21/27] fix: answer a malformed request with an error status

An unreadable or undecodable body ended the server or, for writes, was
acknowledged with whatever part of it could be decoded.
---
 src/server.rs | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 87e20dc..6297e75 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -65,11 +65,29 @@ where
     fn _process(server: MonolithServer<S, I>, mut request: Request) {
         //Convert request content to protobuf coded format
         let mut content = Vec::new();
-        request.as_reader().read_to_end(&mut content).unwrap();
+        if let Err(err) = request.as_reader().read_to_end(&mut content) {
+            error!("Cannot read the body of a request, {}", err);
+            request.respond(Response::empty(400));
+            return;
+        }
         let mut decoder = snap::raw::Decoder::new();
-        let _content = decoder.decompress_vec(content.as_slice()).unwrap();
+        let _content = match decoder.decompress_vec(content.as_slice()) {
+            Ok(_content) => _content,
+            Err(err) => {
+                error!("Cannot decompress the body of a request, {}", err);
+                request.respond(Response::empty(400));
+                return;
+            }
+        };
+        let _content_len = _content.len() as u64;
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
+        // without the limit a nested message that claims to be longer than the body is accepted
+        if let Err(err) = input_stream.push_limit(_content_len) {
+            error!("Cannot read the body of a request, {}", err);
+            request.respond(Response::empty(400));
+            return;
+        }
 
         //triage the request
         match (request.method(), request.url()) {
@@ -85,7 +103,7 @@ where
                     } else {
                         error!("Empty request")
                     }
-                    request.respond(Response::empty(500));
+                    request.respond(Response::empty(400));
                 } else {
                     match server.query(read_req) {
                         Ok(read_res) => {
@@ -98,11 +116,13 @@ where
                             _res_cur.set_position(0);
                             _res_cur.read_to_end(&mut _inner);
                             let mut encoder = snap::raw::Encoder::new();
-                            let _res = encoder.compress_vec(_inner.as_slice()).unwrap();
-
-                            let response = Response::from_data(_res.as_slice());
-
-                            request.respond(response);
+                            match encoder.compress_vec(_inner.as_slice()) {
+                                Ok(_res) => request.respond(Response::from_data(_res.as_slice())),
+                                Err(err) => {
+                                    error!("Cannot compress a read response, {}", err);
+                                    request.respond(Response::empty(500))
+                                }
+                            };
                         }
                         Err(err) => {
                             error!("{}", format!("Error when query against db, {}", err));
@@ -113,7 +133,11 @@ where
             }
             (_, write_path) if write_path == server.write_path => {
                 let mut write_req = WriteRequest::new();
-                write_req.merge_from(&mut input_stream);
+                if let Err(err) = write_req.merge_from(&mut input_stream) {
+                    error!("Cannot read content from write request, {}", err);
+                    request.respond(Response::empty(400));
+                    return;
+                }
                 match server.write(write_req) {
                     Ok(_) => {
                         request.respond(Response::empty(200));
-- 
2.43.0


From 89fbfdf02c7f2055703679e0ce3ca9cb98122a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 22/27] fix: read ranges that start before the epoch

A negative start was converted to a timestamp in the far future and the read
answered without the points in its range.
---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 6297e75..be8bc25 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -161,6 +161,9 @@ where
                     .queries
                     .iter()
                     .map(|q| -> Result<Vec<crate::proto::TimeSeries>> {
+                        if q.end_timestamp_ms < 0 {
+                            return Ok(vec![]);
+                        }
                         Ok(self
                             .db
                             .query(
@@ -170,7 +173,8 @@ where
                                         .map(Label::from_label_matcher)
                                         .collect::<Vec<Label>>(),
                                 ),
-                                q.start_timestamp_ms as Timestamp,
+                                // there is nothing before the epoch
+                                q.start_timestamp_ms.max(0) as Timestamp,
                                 q.end_timestamp_ms as Timestamp,
                             )?
                             .iter()
-- 
2.43.0


From 534d6cc119f11551ac290afb9a191aae99f0d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 23/27] fix: refuse label matchers that are not equality

A read with a negative or regular expression matcher was answered with the
series whose label equals the matcher's value.
---
 src/server.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index be8bc25..5986f71 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -2,9 +2,9 @@ use crate::MonolithDb;
 
 use crate::common::label::{Label, Labels};
 use crate::common::time_series::TimeSeries;
-use crate::proto::{QueryResult, ReadRequest, ReadResponse, WriteRequest};
+use crate::proto::{LabelMatcher_Type, QueryResult, ReadRequest, ReadResponse, WriteRequest};
 use crate::storage::Storage;
-use crate::{Result, Timestamp};
+use crate::{MonolithErr, Result, Timestamp};
 use protobuf::{CodedInputStream, CodedOutputStream, Message, RepeatedField};
 use std::io::{Cursor, Read};
 use tiny_http::{Request, Response, Server};
@@ -161,6 +161,11 @@ where
                     .queries
                     .iter()
                     .map(|q| -> Result<Vec<crate::proto::TimeSeries>> {
+                        if q.matchers.iter().any(|m| m.field_type != LabelMatcher_Type::EQ) {
+                            return Err(MonolithErr::InternalErr(
+                                "only equality matchers are supported".to_string(),
+                            ));
+                        }
                         if q.end_timestamp_ms < 0 {
                             return Ok(vec![]);
                         }
-- 
2.43.0


From 4a190603f9fa213955d6fa53aab74f93fc5aaed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 24/27] fix: process requests concurrently and survive a panic
 in one

---
 src/server.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 5986f71..7aae68c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -50,13 +50,28 @@ where
 
         let workers = rayon::ThreadPoolBuilder::new()
             .num_threads(self.worker_num)
+            // a request whose processing panics must not take the server down
+            .panic_handler(|_| error!("The processing of a request panicked"))
             .build()
             .unwrap();
 
         for request in server.incoming_requests() {
-            let server = self.clone();
+            let db = Arc::clone(&self.db);
+            let read_path = self.read_path.to_string();
+            let write_path = self.write_path.to_string();
+            let (port, worker_num) = (self.port, self.worker_num);
             //do we need a context and a time out in case some thread stuck for some reason?
-            workers.install(move || MonolithServer::_process(server, request));
+            // hand the request over instead of waiting for it, a slow client must not block the others
+            workers.spawn(move || {
+                let server = MonolithServer {
+                    db,
+                    port,
+                    read_path: read_path.as_str(),
+                    write_path: write_path.as_str(),
+                    worker_num,
+                };
+                MonolithServer::_process(server, request)
+            });
         }
 
         Ok(())
-- 
2.43.0


From d9b9e575ec72aa5f14b75d141a39cb8e25aa1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 25/27] fix: --tikv_config takes the path of the configuration
 file

---
 src/bin/monolith-server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/monolith-server.rs b/src/bin/monolith-server.rs
index 4f327a2..cf74a16 100644
--- a/src/bin/monolith-server.rs
+++ b/src/bin/monolith-server.rs
@@ -54,7 +54,9 @@ fn main() {
             Arg::with_name(WORKER_NUM)
                 .long(WORKER_NUM)
                 .default_value(default_worker_num.as_str()),
-            Arg::with_name(TIKV_CONFIG).long(TIKV_CONFIG),
+            Arg::with_name(TIKV_CONFIG)
+                .long(TIKV_CONFIG)
+                .takes_value(true),
         ])
         .get_matches();
 
-- 
2.43.0


From 75c042ba4ecd8efc6f99b02420ef721df425bf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 26/27] fix: read chunk names correctly below a directory with
 non-ASCII characters

The name of a chunk directory was cut out of its path by skipping as many
characters as the part before it has bytes, so below a data directory whose
path has multi-byte characters chunks were opened with a wrong range or not
at all, and a name that is not UTF-8 made opening the database panic.
---
 src/db.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 0596576..e228bc4 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::path::{Path, PathBuf};
+use std::path::Path;
 use std::sync::mpsc::channel;
 use std::sync::{Arc, RwLock};
 use std::time::Duration;
@@ -138,18 +138,14 @@ where
     ) -> Result<Vec<Arc<Chunk<S, I>>>> {
         let mut res = Vec::new();
         for entry in fs::read_dir(dir)? {
-            let path_str = entry?.path().into_os_string().into_string().unwrap();
-            let _slash = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;
-            let dir_name = path_str.clone();
-            let dir_name = dir_name
-                .chars()
-                .skip(_slash)
-                .take(dir_name.len() - _slash)
-                .collect();
+            let path = entry?.path();
+            let dir_name = match path.file_name().and_then(|name| name.to_str()) {
+                Some(name) => name.to_string(),
+                None => continue,
+            };
             match decode_chunk_dir(dir_name) {
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
-                    let path = PathBuf::from(path_str.clone());
                     let mut chunk_opts = match ChunkOpts::read_config_from_dir(&path) {
                         // a crash came before the chunk was set up, so nothing can be stored in it
                         Err(MonolithErr::NotFoundErr) => continue,
-- 
2.43.0


From 849e2cb36c4e66f275e18f3bad49fa6f63ccf0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:04 +0000
Subject: [PATCH 27/27] fix: refuse a request body that claims to decompress to
 more than it can, without allocating it

---
 src/server.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 7aae68c..1070026 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -85,6 +85,13 @@ where
             request.respond(Response::empty(400));
             return;
         }
+        // no byte of a snappy body stands for more than 64, so one that claims to hold more than
+        // that is broken, and must not make us allocate what it claims
+        if snap::raw::decompress_len(content.as_slice()).map_or(false, |len| len > content.len() * 64) {
+            error!("The body of a request claims to hold more than it can");
+            request.respond(Response::empty(400));
+            return;
+        }
         let mut decoder = snap::raw::Decoder::new();
         let _content = match decoder.decompress_vec(content.as_slice()) {
             Ok(_content) => _content,
-- 
2.43.0


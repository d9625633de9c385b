From 49c3d9277581ea992651e3b6a4049e27985f07c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 01/37] fix: match Iceberg file statistics to columns by name

---
 .../sail-iceberg/src/datasource/provider.rs   | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index 1ec26cf..d35281e 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -661,8 +661,14 @@ impl IcebergTableProvider {
         let mut total_rows: usize = 0;
         let mut total_bytes: usize = 0;
 
-        // Pre-compute field id per column index
-        let field_ids: Vec<i32> = self.schema.fields().iter().map(|f| f.id).collect();
+        // Pre-compute field id per column index of the Arrow schema, whose column order
+        // can differ from the Iceberg schema (identity partition columns come last).
+        let field_ids: Vec<Option<i32>> = self
+            .arrow_schema
+            .fields()
+            .iter()
+            .map(|f| self.schema.field_id_by_name(f.name()))
+            .collect();
 
         // Initialize accumulators per column
         let mut min_scalars: Vec<Option<ScalarValue>> =
@@ -676,6 +682,9 @@ impl IcebergTableProvider {
             total_bytes = total_bytes.saturating_add(df.file_size_in_bytes() as usize);
 
             for (col_idx, field_id) in field_ids.iter().enumerate() {
+                let Some(field_id) = field_id else {
+                    continue;
+                };
                 // null counts
                 if let Some(c) = df.null_value_counts().get(field_id) {
                     null_counts[col_idx] = null_counts[col_idx].saturating_add(*c as usize);
@@ -743,14 +752,12 @@ impl IcebergTableProvider {
             .arrow_schema
             .fields()
             .iter()
-            .enumerate()
-            .map(|(i, _field)| {
-                let field_id = self
-                    .schema
-                    .fields()
-                    .get(i)
-                    .map(|f| f.id)
-                    .unwrap_or(i as i32 + 1);
+            .map(|field| {
+                // The Arrow column order can differ from the Iceberg schema
+                // (identity partition columns come last), so match by name.
+                let Some(field_id) = self.schema.field_id_by_name(field.name()) else {
+                    return ColumnStatistics::new_unknown();
+                };
 
                 let null_count = data_file
                     .null_value_counts()
-- 
2.43.0


From 34532422968b610a8ab50b83406ded9f95068d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:07 +0000
Subject: [PATCH 02/37] fix: resolve encoded Delta data file paths in MERGE and
 deletion vector scans

The touched-file join of MERGE compared decoded data file paths with
percent-encoded paths of the replayed log, and the deletion vector scan
encoded the path once more, so partition values with special characters
left stale rows behind or failed.
---
 crates/sail-delta-lake/src/datasource/scan.rs |  2 +-
 .../src/physical_plan/dv_writer_exec.rs       | 18 ++++-----
 .../src/physical_plan/log_replay_exec.rs      | 38 ++++++++++++++++---
 .../src/physical_plan/meta_adds.rs            |  8 +---
 4 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/scan.rs b/crates/sail-delta-lake/src/datasource/scan.rs
index facfddf..441d27b 100644
--- a/crates/sail-delta-lake/src/datasource/scan.rs
+++ b/crates/sail-delta-lake/src/datasource/scan.rs
@@ -607,7 +607,7 @@ fn bounds_have_mismatched_types(a: &Precision<ScalarValue>, b: &Precision<Scalar
     }
 }
 
-fn rewrite_data_file_location(table_root: Path, location: Path) -> Path {
+pub(crate) fn rewrite_data_file_location(table_root: Path, location: Path) -> Path {
     let raw = location.as_ref();
     if looks_like_absolute_uri(raw) {
         return location;
diff --git a/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs b/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs
index 25dd7be..0513c00 100644
--- a/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs
+++ b/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs
@@ -883,8 +883,11 @@ async fn scan_file_for_matching_rows(
     use datafusion::datasource::listing::PartitionedFile;
     use datafusion::datasource::physical_plan::{FileGroup, FileScanConfigBuilder, ParquetSource};
     use datafusion::datasource::source::DataSourceExec;
+    use object_store::ObjectMeta;
     use object_store::path::Path;
 
+    use crate::datasource::scan::rewrite_data_file_location;
+
     // Build a simple single-file scan directly from the parquet file.
     let object_store_url = datafusion::datasource::object_store::ObjectStoreUrl::parse(
         &table_url[..url::Position::BeforePath],
@@ -892,15 +895,12 @@ async fn scan_file_for_matching_rows(
 
     // The add.path is relative to the table root (e.g., "part-00001-...parquet").
     // We must prefix it with the table root path so the object store can find it.
-    let table_root = Path::from(table_url.path());
-    let file_location = Path::from(format!(
-        "{}{}{}",
-        table_root,
-        object_store::path::DELIMITER,
-        add.path
-    ));
-    let file_size = add.size as u64;
-    let partitioned_file = PartitionedFile::new(file_location.to_string(), file_size);
+    // The paths are already encoded and must not be encoded again.
+    let mut object_meta =
+        ObjectMeta::try_from(add).map_err(|e| DataFusionError::External(Box::new(e)))?;
+    object_meta.location =
+        rewrite_data_file_location(Path::from(table_url.path()), object_meta.location);
+    let partitioned_file = PartitionedFile::new_from_meta(object_meta);
 
     let parquet_source = ParquetSource::new(Arc::clone(table_schema));
     let file_source: Arc<dyn datafusion::datasource::physical_plan::FileSource> =
diff --git a/crates/sail-delta-lake/src/physical_plan/log_replay_exec.rs b/crates/sail-delta-lake/src/physical_plan/log_replay_exec.rs
index d9127b9..00dad84 100644
--- a/crates/sail-delta-lake/src/physical_plan/log_replay_exec.rs
+++ b/crates/sail-delta-lake/src/physical_plan/log_replay_exec.rs
@@ -20,8 +20,10 @@ use datafusion::physical_plan::{
 use datafusion_common::{DataFusionError, Result, internal_err};
 use datafusion_physical_expr::{Distribution, EquivalenceProperties};
 use futures::{TryStreamExt, stream};
+use percent_encoding::percent_decode_str;
 use url::Url;
 
+use crate::datasource::PATH_COLUMN;
 use crate::physical_plan::{COL_LOG_IS_REMOVE, COL_LOG_VERSION, COL_REPLAY_PATH};
 
 const OUTPUT_BATCH_ROWS: usize = 8192;
@@ -210,6 +212,28 @@ impl DeltaLogReplayExec {
     }
 }
 
+/// Decode the percent-encoded `path` of replayed actions, so that downstream operators
+/// can match it with the (decoded) paths of the scanned data files.
+fn decode_path_column(batch: RecordBatch) -> Result<RecordBatch> {
+    let Ok(index) = batch.schema_ref().index_of(PATH_COLUMN) else {
+        return Ok(batch);
+    };
+    let Some(paths) = batch.column(index).as_any().downcast_ref::<StringArray>() else {
+        return Ok(batch);
+    };
+    let paths = paths
+        .iter()
+        .map(|path| {
+            path.map(|path| percent_decode_str(path).decode_utf8())
+                .transpose()
+                .map_err(|e| DataFusionError::External(Box::new(e)))
+        })
+        .collect::<Result<StringArray>>()?;
+    let mut columns = batch.columns().to_vec();
+    columns[index] = Arc::new(paths);
+    Ok(RecordBatch::try_new(batch.schema(), columns)?)
+}
+
 fn required_replay_columns(
     batch: &RecordBatch,
 ) -> Result<(Arc<StringArray>, Arc<BooleanArray>, Arc<Int64Array>)> {
@@ -833,7 +857,7 @@ impl ExecutionPlan for DeltaLogReplayExec {
     ) -> Result<SendableRecordBatchStream> {
         let output_schema = self.schema();
 
-        match &self.mode {
+        let replayed: SendableRecordBatchStream = match &self.mode {
             ReplayMode::Sort { input } => {
                 let input_stream = input.execute(partition, context)?;
                 let state = ReplayState::new(input_stream, Arc::clone(&output_schema));
@@ -868,7 +892,7 @@ impl ExecutionPlan for DeltaLogReplayExec {
                     }
                 });
 
-                Ok(Box::pin(RecordBatchStreamAdapter::new(output_schema, s)))
+                Box::pin(RecordBatchStreamAdapter::new(output_schema, s))
             }
             ReplayMode::Hash {
                 checkpoint,
@@ -886,7 +910,7 @@ impl ExecutionPlan for DeltaLogReplayExec {
                     Arc::clone(&output_schema),
                     reservation,
                 );
-                Ok(hash_replay_stream(state, output_schema))
+                hash_replay_stream(state, output_schema)
             }
             ReplayMode::HashCommits { commits } => {
                 let reservation =
@@ -902,9 +926,13 @@ impl ExecutionPlan for DeltaLogReplayExec {
                     Arc::clone(&output_schema),
                     reservation,
                 );
-                Ok(hash_replay_stream(state, output_schema))
+                hash_replay_stream(state, output_schema)
             }
-        }
+        };
+        Ok(Box::pin(RecordBatchStreamAdapter::new(
+            replayed.schema(),
+            replayed.and_then(|batch| async move { decode_path_column(batch) }),
+        )))
     }
 }
 
diff --git a/crates/sail-delta-lake/src/physical_plan/meta_adds.rs b/crates/sail-delta-lake/src/physical_plan/meta_adds.rs
index e06e968..8c2597c 100644
--- a/crates/sail-delta-lake/src/physical_plan/meta_adds.rs
+++ b/crates/sail-delta-lake/src/physical_plan/meta_adds.rs
@@ -8,7 +8,6 @@ use datafusion::arrow::array::{
 use datafusion::arrow::compute::cast;
 use datafusion::arrow::datatypes::{DataType, SchemaRef};
 use datafusion_common::{DataFusionError, Result};
-use percent_encoding::percent_decode_str;
 
 use crate::datasource::{COMMIT_TIMESTAMP_COLUMN, COMMIT_VERSION_COLUMN, PATH_COLUMN};
 use crate::schema::PhysicalPartitionColumn;
@@ -139,11 +138,8 @@ pub fn decode_adds_from_meta_batch_with_partition_value_columns(
             )));
         }
 
-        let raw_path = path_arr.value(row);
-        let path = percent_decode_str(raw_path)
-            .decode_utf8()
-            .map_err(|e| DataFusionError::External(Box::new(e)))?
-            .to_string();
+        // The log replay has already decoded the path.
+        let path = path_arr.value(row).to_string();
 
         let size = size_arr
             .map(|a| if a.is_null(row) { 0 } else { a.value(row) })
-- 
2.43.0


From 6cc5e2afc7757eeb1d6a0b5f826925f14c6ed862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 03/37] fix: treat empty-string Delta partition values as null
 when pruning

---
 crates/sail-delta-lake/src/datasource/pruning.rs    |  5 +++--
 .../src/physical_plan/planner/utils.rs              | 13 ++++++++++---
 crates/sail-delta-lake/src/writer/stats.rs          |  3 ++-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/pruning.rs b/crates/sail-delta-lake/src/datasource/pruning.rs
index faabb3d..f9036f2 100644
--- a/crates/sail-delta-lake/src/datasource/pruning.rs
+++ b/crates/sail-delta-lake/src/datasource/pruning.rs
@@ -423,7 +423,8 @@ impl<'adds> AddStatsPruningStatistics<'adds> {
             .map(|add| {
                 add.partition_values
                     .get(&storage_name)
-                    .map(|value| value.as_deref())
+                    // An empty string is the Delta representation of a null partition value.
+                    .map(|value| value.as_deref().filter(|value| !value.is_empty()))
             })
             .collect();
         let values = values?;
@@ -575,7 +576,7 @@ impl<'adds> AddStatsPruningStatistics<'adds> {
         let storage_name = self.storage_name_for(column)?;
         self.build_count_array(column, |a, s| {
             if let Some(pv) = a.partition_values.get(&storage_name) {
-                if pv.is_none() {
+                if pv.as_deref().is_none_or(str::is_empty) {
                     return s.map(|s| s.num_records.max(0) as u64);
                 }
                 return Some(0);
diff --git a/crates/sail-delta-lake/src/physical_plan/planner/utils.rs b/crates/sail-delta-lake/src/physical_plan/planner/utils.rs
index 53ce632..4e2508a 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/utils.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/utils.rs
@@ -625,9 +625,16 @@ async fn build_log_replay_pipeline_with_files(
                 vec![extracted, lit_i64(1)],
             ))
         };
-        simplify(Expr::Cast(Cast::new(
-            Box::new(extract_elem(physical)),
-            DataType::Utf8,
+        // An empty string is the Delta representation of a null partition value.
+        simplify(Expr::ScalarFunction(ScalarFunction::new_udf(
+            datafusion::functions::core::nullif(),
+            vec![
+                Expr::Cast(Cast::new(
+                    Box::new(extract_elem(physical)),
+                    DataType::Utf8,
+                )),
+                lit_str(""),
+            ],
         )))
     };
 
diff --git a/crates/sail-delta-lake/src/writer/stats.rs b/crates/sail-delta-lake/src/writer/stats.rs
index cff2000..7f949e4 100644
--- a/crates/sail-delta-lake/src/writer/stats.rs
+++ b/crates/sail-delta-lake/src/writer/stats.rs
@@ -75,10 +75,11 @@ pub fn create_add(
             .map(|(k, v)| {
                 (
                     k.clone(),
+                    // An empty string is the Delta representation of a null partition value.
                     if v.is_null() {
                         None
                     } else {
-                        Some(v.serialize().into_owned())
+                        Some(v.serialize().into_owned()).filter(|v| !v.is_empty())
                     },
                 )
             })
-- 
2.43.0


From 608838059424ecba00dd7bd224c94b16c978f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:06 +0000
Subject: [PATCH 04/37] fix: keep rows with a null predicate when replacing
 Delta data

---
 .../src/physical_plan/planner/op_write.rs          | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs b/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
index 660cdba..5dadee9 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
@@ -14,8 +14,8 @@ use std::sync::Arc;
 
 use datafusion::arrow::datatypes::SchemaRef;
 use datafusion::common::{DataFusionError, Result, ToDFSchema};
-use datafusion::logical_expr::Expr;
-use datafusion::physical_expr::expressions::NotExpr;
+use datafusion::logical_expr::{Expr, Operator};
+use datafusion::physical_expr::expressions::{BinaryExpr, lit};
 use datafusion::physical_expr::{LexRequirement, PhysicalExpr};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::filter::FilterExec;
@@ -343,8 +343,14 @@ async fn build_old_data_plan(
         snapshot_state.load_config().catalog_managed_commits.clone(),
     ));
 
-    let negated_condition = Arc::new(NotExpr::new(condition));
-    let filter_exec = Arc::new(FilterExec::try_new(negated_condition, scan_exec)?);
+    // Retain the rows for which the condition is not true, which includes the rows
+    // for which it is null.
+    let retention_condition = Arc::new(BinaryExpr::new(
+        condition,
+        Operator::IsDistinctFrom,
+        lit(true),
+    ));
+    let filter_exec = Arc::new(FilterExec::try_new(retention_condition, scan_exec)?);
 
     Ok(filter_exec)
 }
-- 
2.43.0


From f54643b56a582369d12676fb372f71f921e801ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:06 +0000
Subject: [PATCH 05/37] fix: list the whole Delta log for versions older than
 the last checkpoint

---
 crates/sail-delta-lake/src/checkpoint/mod.rs   |  9 +++------
 .../sail-delta-lake/src/delta_log/listing.rs   | 12 ++++++++++++
 crates/sail-delta-lake/src/delta_log/mod.rs    |  2 +-
 .../sail-delta-lake/src/delta_log/segment.rs   | 18 ++++++------------
 .../src/delta_log/segment_files.rs             |  7 ++-----
 5 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/crates/sail-delta-lake/src/checkpoint/mod.rs b/crates/sail-delta-lake/src/checkpoint/mod.rs
index 533ed26..55183aa 100644
--- a/crates/sail-delta-lake/src/checkpoint/mod.rs
+++ b/crates/sail-delta-lake/src/checkpoint/mod.rs
@@ -41,8 +41,8 @@ use crate::checkpoint::action_fields::{
 };
 use crate::delta_log::segment_files::ReplayedTableHeader;
 use crate::delta_log::{
-    LogStore, get_actions, list_delta_log_entries_from, parse_checkpoint_version_from_location,
-    parse_commit_version_from_location, read_last_checkpoint_version_from_store,
+    LogStore, checkpoint_listing_offset, get_actions, list_delta_log_entries_from,
+    parse_checkpoint_version_from_location, parse_commit_version_from_location,
     resolve_commit_timestamp_from_actions,
 };
 pub(crate) use crate::delta_log::{
@@ -540,10 +540,7 @@ impl<'a> CheckpointManager<'a> {
         }
 
         let store = self.log_store.object_store(Some(self.operation_id));
-        let offset_version = read_last_checkpoint_version_from_store(store.clone()).await;
-        let offset_version = offset_version
-            .map(|v| v.min(version).saturating_sub(1))
-            .unwrap_or(0);
+        let offset_version = checkpoint_listing_offset(store.clone(), version).await;
         let log_entries = list_delta_log_entries_from(store.clone(), offset_version).await?;
         let mut commit_entries: Vec<(i64, ObjectMeta)> = Vec::new();
         let mut checkpoint_entries: Vec<(i64, ObjectMeta)> = Vec::new();
diff --git a/crates/sail-delta-lake/src/delta_log/listing.rs b/crates/sail-delta-lake/src/delta_log/listing.rs
index 2553ef1..85286ff 100644
--- a/crates/sail-delta-lake/src/delta_log/listing.rs
+++ b/crates/sail-delta-lake/src/delta_log/listing.rs
@@ -63,6 +63,18 @@ pub(crate) async fn read_last_checkpoint_version_from_store(
         .map(|hint| hint.version)
 }
 
+/// Returns the version from which the log is listed for reconstructing `version`.
+///
+/// The checkpoint hint narrows the listing only if the hinted checkpoint can serve `version`.
+/// A checkpoint newer than `version` says nothing about where an older one can be found.
+pub(crate) async fn checkpoint_listing_offset(store: Arc<dyn ObjectStore>, version: i64) -> i64 {
+    read_last_checkpoint_version_from_store(store)
+        .await
+        .filter(|checkpoint_version| *checkpoint_version <= version)
+        .map(|checkpoint_version| checkpoint_version.saturating_sub(1))
+        .unwrap_or(0)
+}
+
 pub(crate) fn v2_checkpoint_path_from_hint(hint: &LastCheckpointHint) -> DeltaResult<Option<Path>> {
     let Some(v2_checkpoint) = &hint.v2_checkpoint else {
         return Ok(None);
diff --git a/crates/sail-delta-lake/src/delta_log/mod.rs b/crates/sail-delta-lake/src/delta_log/mod.rs
index cfa0c07..94a1b97 100644
--- a/crates/sail-delta-lake/src/delta_log/mod.rs
+++ b/crates/sail-delta-lake/src/delta_log/mod.rs
@@ -7,7 +7,7 @@ mod store;
 mod timestamps;
 
 pub(crate) use listing::{
-    latest_version_from_listing, list_delta_log_entries_from,
+    checkpoint_listing_offset, latest_version_from_listing, list_delta_log_entries_from,
     parse_checkpoint_version_from_location, parse_checksum_version_from_location,
     parse_commit_version_from_location, parse_compacted_json_versions_from_location,
     read_last_checkpoint_hint_from_store, read_last_checkpoint_version_from_store,
diff --git a/crates/sail-delta-lake/src/delta_log/segment.rs b/crates/sail-delta-lake/src/delta_log/segment.rs
index 431100d..9f6e90e 100644
--- a/crates/sail-delta-lake/src/delta_log/segment.rs
+++ b/crates/sail-delta-lake/src/delta_log/segment.rs
@@ -6,10 +6,10 @@ use object_store::{ObjectMeta, ObjectStore, ObjectStoreExt};
 
 use super::timestamps::version_uses_in_commit_timestamps;
 use super::{
-    list_delta_log_entries_from, parse_checkpoint_version_from_location,
+    checkpoint_listing_offset, list_delta_log_entries_from, parse_checkpoint_version_from_location,
     parse_checksum_version_from_location, parse_commit_version_from_location,
     parse_compacted_json_versions_from_location, read_last_checkpoint_hint_from_store,
-    read_last_checkpoint_version_from_store, v2_checkpoint_path_from_hint,
+    v2_checkpoint_path_from_hint,
 };
 use crate::delta_log::LogStore;
 use crate::snapshot::{CatalogManagedCommitSet, catalog_managed_commit_path};
@@ -133,11 +133,8 @@ impl<'a> LogSegmentResolver<'a> {
             lookback.max(hint_floor)
         };
 
-        let last_cp_hint_version = read_last_checkpoint_version_from_store(store.clone())
-            .await
-            .map(|v| v.min(version).saturating_sub(1))
-            .unwrap_or(0);
-        let list_offset = lower_bound.min(last_cp_hint_version);
+        let checkpoint_offset = checkpoint_listing_offset(store.clone(), version).await;
+        let list_offset = lower_bound.min(checkpoint_offset);
 
         let (checksum_candidates, checkpoint_candidate, all_commits, all_compactions) =
             list_log_files(store.clone(), list_offset, version).await?;
@@ -284,13 +281,10 @@ impl<'a> LogSegmentResolver<'a> {
         let version = self.target_version;
         let store = self.log_store.object_store(None);
 
-        let last_cp_hint_version = read_last_checkpoint_version_from_store(store.clone())
-            .await
-            .map(|v| v.min(version).saturating_sub(1))
-            .unwrap_or(0);
+        let checkpoint_offset = checkpoint_listing_offset(store.clone(), version).await;
 
         let (_, checkpoint, all_commits, all_compactions) =
-            list_log_files(store.clone(), last_cp_hint_version, version).await?;
+            list_log_files(store.clone(), checkpoint_offset, version).await?;
 
         let start_version = match &checkpoint {
             Some(cp_meta) => cp_meta_version(cp_meta)?.saturating_add(1),
diff --git a/crates/sail-delta-lake/src/delta_log/segment_files.rs b/crates/sail-delta-lake/src/delta_log/segment_files.rs
index a9f1610..86d2438 100644
--- a/crates/sail-delta-lake/src/delta_log/segment_files.rs
+++ b/crates/sail-delta-lake/src/delta_log/segment_files.rs
@@ -12,7 +12,7 @@
 
 use crate::checkpoint::inspect_checkpoint_main_file;
 pub(crate) use crate::delta_log::ReplayedTableHeader;
-use crate::delta_log::{list_log_files, read_last_checkpoint_version_from_store};
+use crate::delta_log::{checkpoint_listing_offset, list_log_files};
 use crate::spec::{DeltaResult, sidecar_log_path};
 
 /// The minimal set of Delta log files needed to reconstruct table state up to a given version.
@@ -50,10 +50,7 @@ pub async fn list_log_segment_files(
     max_version: i64,
 ) -> DeltaResult<LogSegmentFiles> {
     let store = log_store.object_store(None);
-    let offset_version = read_last_checkpoint_version_from_store(store.clone())
-        .await
-        .map(|v| v.min(max_version).saturating_sub(1))
-        .unwrap_or(0);
+    let offset_version = checkpoint_listing_offset(store.clone(), max_version).await;
 
     let (_, checkpoint_meta, commit_metas, compaction_metas) =
         list_log_files(store.clone(), offset_version, max_version).await?;
-- 
2.43.0


From 65973c5c1e07efd0539d78ae556a803dc30fdfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:20 +0000
Subject: [PATCH 06/37] fix: evaluate Delta deletion vector predicates on
 partition and mapped columns

---
 .../src/physical_plan/dv_writer_exec.rs       | 82 ++++++++++++++++---
 1 file changed, 69 insertions(+), 13 deletions(-)

diff --git a/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs b/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs
index 0513c00..fd30fbd 100644
--- a/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs
+++ b/crates/sail-delta-lake/src/physical_plan/dv_writer_exec.rs
@@ -8,6 +8,7 @@ use std::time::Instant;
 use async_trait::async_trait;
 use datafusion::arrow::array::{Array, BooleanArray, Int64Array, StringArray};
 use datafusion::arrow::compute::SortOptions;
+use datafusion::arrow::datatypes::FieldRef;
 use datafusion::execution::context::TaskContext;
 use datafusion::physical_expr::{LexOrdering, OrderingRequirements, PhysicalSortExpr};
 use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
@@ -22,7 +23,10 @@ use datafusion_physical_expr::expressions::Column;
 use datafusion_physical_expr::{Distribution, EquivalenceProperties, PhysicalExpr};
 use futures::stream::{self, StreamExt};
 use object_store::ObjectStore;
-use sail_common_datafusion::schema_evolution::SchemaEvolutionPhysicalExprAdapterFactory;
+use sail_common_datafusion::rename::physical_plan::rename_physical_plan;
+use sail_common_datafusion::schema_evolution::{
+    SchemaEvolutionPhysicalExprAdapterFactoryWithMatching, StructFieldMatching,
+};
 use url::Url;
 
 use crate::deletion_vector::{DeletionVectorBitmap, DeletionVectorWriter};
@@ -30,8 +34,10 @@ use crate::physical_plan::{
     COL_ACTION, ExecCommitMeta, current_timestamp_millis, decode_adds_from_batch,
     delta_action_schema, encode_actions, meta_adds,
 };
-use crate::schema::PhysicalPartitionColumn;
-use crate::spec::{Action, Add, RemoveOptions};
+use crate::schema::{
+    PhysicalPartitionColumn, arrow_field_physical_name, restore_logical_record_batch,
+};
+use crate::spec::{Action, Add, ColumnMappingMode, RemoveOptions};
 use crate::transaction::OperationMetrics;
 
 /// Update an Add action's stats to reflect that the bounds are now wide (non-tight)
@@ -734,6 +740,7 @@ impl ExecutionPlan for DeletionVectorWriterExec {
                     add,
                     &table_url,
                     &table_schema,
+                    partition_value_columns.as_deref().unwrap_or_default(),
                     &condition,
                     &context,
                 )
@@ -877,17 +884,55 @@ async fn scan_file_for_matching_rows(
     add: &Add,
     table_url: &Url,
     table_schema: &datafusion::arrow::datatypes::SchemaRef,
+    partition_columns: &[PhysicalPartitionColumn],
     condition: &Arc<dyn PhysicalExpr>,
     context: &Arc<TaskContext>,
 ) -> Result<Vec<u64>> {
-    use datafusion::datasource::listing::PartitionedFile;
+    use datafusion::arrow::datatypes::Schema;
     use datafusion::datasource::physical_plan::{FileGroup, FileScanConfigBuilder, ParquetSource};
     use datafusion::datasource::source::DataSourceExec;
-    use object_store::ObjectMeta;
+    use datafusion::datasource::table_schema::TableSchema;
     use object_store::path::Path;
 
+    use crate::datasource::partitioned_file_from_action;
     use crate::datasource::scan::rewrite_data_file_location;
 
+    // The file contains the data columns under their physical names. The partition columns
+    // are not in the file, so their values come from the Add action.
+    let (partition_fields, file_fields): (Vec<_>, Vec<_>) =
+        table_schema.fields().iter().partition(|field| {
+            partition_columns
+                .iter()
+                .any(|column| column.logical_name == *field.name())
+        });
+    let physical_field = |field: &FieldRef| {
+        let name = arrow_field_physical_name(field, ColumnMappingMode::Name);
+        Arc::new(field.as_ref().clone().with_name(name))
+    };
+    let partition_fields = partition_columns
+        .iter()
+        .filter_map(|column| {
+            partition_fields
+                .iter()
+                .find(|field| column.logical_name == *field.name())
+        })
+        .copied()
+        .collect::<Vec<_>>();
+    let logical_names = file_fields
+        .iter()
+        .chain(partition_fields.iter())
+        .map(|field| field.name().clone())
+        .collect::<Vec<_>>();
+    let scan_schema = TableSchema::new(
+        Arc::new(Schema::new(
+            file_fields
+                .into_iter()
+                .map(physical_field)
+                .collect::<Vec<_>>(),
+        )),
+        partition_fields.into_iter().map(physical_field).collect(),
+    );
+
     // Build a simple single-file scan directly from the parquet file.
     let object_store_url = datafusion::datasource::object_store::ObjectStoreUrl::parse(
         &table_url[..url::Position::BeforePath],
@@ -896,23 +941,30 @@ async fn scan_file_for_matching_rows(
     // The add.path is relative to the table root (e.g., "part-00001-...parquet").
     // We must prefix it with the table root path so the object store can find it.
     // The paths are already encoded and must not be encoded again.
-    let mut object_meta =
-        ObjectMeta::try_from(add).map_err(|e| DataFusionError::External(Box::new(e)))?;
-    object_meta.location =
-        rewrite_data_file_location(Path::from(table_url.path()), object_meta.location);
-    let partitioned_file = PartitionedFile::new_from_meta(object_meta);
+    let mut partitioned_file = partitioned_file_from_action(add, partition_columns, table_schema)
+        .map_err(|e| DataFusionError::External(Box::new(e)))?;
+    partitioned_file.object_meta.location = rewrite_data_file_location(
+        Path::from(table_url.path()),
+        partitioned_file.object_meta.location,
+    );
 
-    let parquet_source = ParquetSource::new(Arc::clone(table_schema));
+    let parquet_source = ParquetSource::new(scan_schema);
     let file_source: Arc<dyn datafusion::datasource::physical_plan::FileSource> =
         Arc::new(parquet_source);
 
     let file_group = FileGroup::from(vec![partitioned_file]);
     let file_scan_config = FileScanConfigBuilder::new(object_store_url, file_source)
         .with_file_groups(vec![file_group])
-        .with_expr_adapter(Some(Arc::new(SchemaEvolutionPhysicalExprAdapterFactory {})))
+        .with_expr_adapter(Some(Arc::new(
+            SchemaEvolutionPhysicalExprAdapterFactoryWithMatching::new_relaxed_timezone(
+                StructFieldMatching::PhysicalName,
+            ),
+        )))
         .build();
 
     let parquet_exec: Arc<dyn ExecutionPlan> = DataSourceExec::from_data_source(file_scan_config);
+    let parquet_exec = rename_physical_plan(parquet_exec, &logical_names)
+        .map_err(|e| DataFusionError::External(Box::new(e)))?;
 
     let mut matching_indices: Vec<u64> = Vec::new();
     let mut global_row_offset: u64 = 0;
@@ -922,7 +974,11 @@ async fn scan_file_for_matching_rows(
     for partition in 0..partitions {
         let mut stream = parquet_exec.execute(partition, Arc::clone(context))?;
         while let Some(batch_result) = stream.next().await {
-            let batch = batch_result?;
+            let batch = restore_logical_record_batch(
+                &batch_result?,
+                table_schema,
+                ColumnMappingMode::Name,
+            )?;
             let num_rows = batch.num_rows();
 
             // Evaluate the delete condition on this batch
-- 
2.43.0


From a0e509a25d032e411a5b5899a9518d6e3a12837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:41 +0000
Subject: [PATCH 07/37] fix: read column-mapped Delta tables through the
 catalog schema

---
 crates/sail-delta-lake/src/table/mod.rs | 27 ++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/sail-delta-lake/src/table/mod.rs b/crates/sail-delta-lake/src/table/mod.rs
index c3ac078..4e8a66f 100644
--- a/crates/sail-delta-lake/src/table/mod.rs
+++ b/crates/sail-delta-lake/src/table/mod.rs
@@ -65,8 +65,9 @@ use crate::snapshot::{
     catalog_managed_commit_file_name,
 };
 use crate::spec::{
-    CommitAction, DeltaError, DeltaError as DeltaTableError, DeltaOperation, DeltaResult, Protocol,
-    SaveMode, StructType, TableFeature, contains_timestampntz_arrow, contains_variant_arrow,
+    ColumnMappingMode, CommitAction, DeltaError, DeltaError as DeltaTableError, DeltaOperation,
+    DeltaResult, Protocol, SaveMode, StructType, TableFeature, contains_timestampntz_arrow,
+    contains_variant_arrow,
 };
 use crate::transaction::CommitBuilder;
 
@@ -792,7 +793,7 @@ async fn load_delta_read_state(
         enable_parquet_pushdown: true,
         schema: match schema {
             Some(ref s) if s.fields().is_empty() => None,
-            Some(s) => Some(Arc::new(s)),
+            Some(s) => Some(Arc::new(with_column_mapping_metadata(s, &snapshot))),
             None => None,
         },
         commit_version_column_name: None,
@@ -803,6 +804,26 @@ async fn load_delta_read_state(
     Ok((snapshot, log_store, scan_config))
 }
 
+/// Completes a provided logical schema (e.g. from the catalog) with the column mapping metadata,
+/// which is needed to find the physical columns and is known to the Delta log only.
+fn with_column_mapping_metadata(schema: Schema, snapshot: &DeltaSnapshot) -> Schema {
+    if snapshot.effective_column_mapping_mode() == ColumnMappingMode::None {
+        return schema;
+    }
+    let table_schema = snapshot.schema();
+    let fields = schema
+        .fields()
+        .iter()
+        .map(|field| match table_schema.field_with_name(field.name()) {
+            Ok(table_field) if table_field.data_type().equals_datatype(field.data_type()) => {
+                Arc::new(table_field.clone().with_nullable(field.is_nullable()))
+            }
+            _ => Arc::clone(field),
+        })
+        .collect::<Vec<_>>();
+    Schema::new_with_metadata(fields, schema.metadata().clone())
+}
+
 /// Helper function to load a DeltaTable based on version or timestamp options.
 async fn load_table_by_options(table: &mut DeltaTable, options: &DeltaReadOptions) -> Result<()> {
     // Precedence: version > timestamp > latest.
-- 
2.43.0


From 5ecdc8edff23c85a7cad127c3d98551327273176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:30 +0000
Subject: [PATCH 08/37] fix: push filters on partition columns of column-mapped
 Delta tables

---
 crates/sail-delta-lake/src/datasource/expressions.rs | 3 +--
 crates/sail-delta-lake/src/physical/scan_planner.rs  | 8 ++------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/expressions.rs b/crates/sail-delta-lake/src/datasource/expressions.rs
index bcb4eb9..806e1d9 100644
--- a/crates/sail-delta-lake/src/datasource/expressions.rs
+++ b/crates/sail-delta-lake/src/datasource/expressions.rs
@@ -119,8 +119,7 @@ fn expr_is_exact_predicate_for_cols(partition_cols: &[String], expr: &Expr) -> b
 /// Rewrite column references in a parquet pushdown predicate from logical names to the
 /// physical names used in the data files of column-mapped tables. Nested struct field
 /// accesses (`get_field`) are rewritten as well, using the column mapping metadata carried
-/// by the logical schema. Partition columns are exposed to the file scan as virtual columns
-/// under their logical names and are left untouched.
+/// by the logical schema. The columns in `partition_cols` are left untouched.
 pub fn rewrite_predicate_for_column_mapping(
     expr: Arc<dyn PhysicalExpr>,
     logical_schema: &ArrowSchema,
diff --git a/crates/sail-delta-lake/src/physical/scan_planner.rs b/crates/sail-delta-lake/src/physical/scan_planner.rs
index d378d67..5048d00 100644
--- a/crates/sail-delta-lake/src/physical/scan_planner.rs
+++ b/crates/sail-delta-lake/src/physical/scan_planner.rs
@@ -238,12 +238,8 @@ pub(crate) async fn plan_delta_scan(
     // so column-mapped tables need the predicate rewritten from logical to physical names.
     let pushdown_filter = pushdown_filter
         .map(|expr| {
-            rewrite_predicate_for_column_mapping(
-                expr,
-                snapshot.schema(),
-                kmode,
-                &table_partition_cols,
-            )
+            // The file scan exposes partition columns under their physical names as well.
+            rewrite_predicate_for_column_mapping(expr, snapshot.schema(), kmode, &[])
         })
         .transpose()?;
 
-- 
2.43.0


From e7eade51fb4c2f0b81c505e9741296887d2a19f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:48 +0000
Subject: [PATCH 09/37] fix: encode partition values in Iceberg data file paths

---
 crates/sail-iceberg/src/operations/write/partition.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sail-iceberg/src/operations/write/partition.rs b/crates/sail-iceberg/src/operations/write/partition.rs
index a09bb73..14579e0 100644
--- a/crates/sail-iceberg/src/operations/write/partition.rs
+++ b/crates/sail-iceberg/src/operations/write/partition.rs
@@ -15,6 +15,7 @@ use datafusion::arrow::array::{ArrayRef, UInt32Array};
 use datafusion::arrow::compute;
 use datafusion::arrow::record_batch::RecordBatch;
 use sail_common_datafusion::catalog::CatalogPartitionField;
+use url::form_urlencoded::byte_serialize;
 
 use crate::spec::partition::UnboundPartitionSpec as PartitionSpec;
 use crate::spec::schema::Schema as IcebergSchema;
@@ -146,7 +147,11 @@ pub fn build_partition_dir(
             _ => base_human,
         };
 
-        segs.push(format!("{}={}", f.name, human));
+        // The data file location in the manifest is a URL, so the path segment must not contain
+        // characters that are delimiters or change when they become part of a URL.
+        let name: String = byte_serialize(f.name.as_bytes()).collect();
+        let human: String = byte_serialize(human.as_bytes()).collect();
+        segs.push(format!("{name}={human}"));
     }
     Ok(segs.join("/"))
 }
-- 
2.43.0


From c6cf85964513e185d457e6106a3b02a1650d13b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:52 +0000
Subject: [PATCH 10/37] fix: keep replaceWhere and log replay plans unchanged

---
 .../src/physical_plan/planner/op_write.rs          | 14 ++++----------
 .../src/physical_plan/planner/utils.rs             | 13 +++----------
 2 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs b/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
index 5dadee9..660cdba 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
@@ -14,8 +14,8 @@ use std::sync::Arc;
 
 use datafusion::arrow::datatypes::SchemaRef;
 use datafusion::common::{DataFusionError, Result, ToDFSchema};
-use datafusion::logical_expr::{Expr, Operator};
-use datafusion::physical_expr::expressions::{BinaryExpr, lit};
+use datafusion::logical_expr::Expr;
+use datafusion::physical_expr::expressions::NotExpr;
 use datafusion::physical_expr::{LexRequirement, PhysicalExpr};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::filter::FilterExec;
@@ -343,14 +343,8 @@ async fn build_old_data_plan(
         snapshot_state.load_config().catalog_managed_commits.clone(),
     ));
 
-    // Retain the rows for which the condition is not true, which includes the rows
-    // for which it is null.
-    let retention_condition = Arc::new(BinaryExpr::new(
-        condition,
-        Operator::IsDistinctFrom,
-        lit(true),
-    ));
-    let filter_exec = Arc::new(FilterExec::try_new(retention_condition, scan_exec)?);
+    let negated_condition = Arc::new(NotExpr::new(condition));
+    let filter_exec = Arc::new(FilterExec::try_new(negated_condition, scan_exec)?);
 
     Ok(filter_exec)
 }
diff --git a/crates/sail-delta-lake/src/physical_plan/planner/utils.rs b/crates/sail-delta-lake/src/physical_plan/planner/utils.rs
index 4e2508a..53ce632 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/utils.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/utils.rs
@@ -625,16 +625,9 @@ async fn build_log_replay_pipeline_with_files(
                 vec![extracted, lit_i64(1)],
             ))
         };
-        // An empty string is the Delta representation of a null partition value.
-        simplify(Expr::ScalarFunction(ScalarFunction::new_udf(
-            datafusion::functions::core::nullif(),
-            vec![
-                Expr::Cast(Cast::new(
-                    Box::new(extract_elem(physical)),
-                    DataType::Utf8,
-                )),
-                lit_str(""),
-            ],
+        simplify(Expr::Cast(Cast::new(
+            Box::new(extract_elem(physical)),
+            DataType::Utf8,
         )))
     };
 
-- 
2.43.0


From bc96117428077c4cf5e526bf7e31d104ebe8566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:50 +0000
Subject: [PATCH 11/37] fix: commit Delta merges and self-reading overwrites
 against the snapshot they read

---
 crates/sail-delta-lake/src/datasource/mod.rs  |  4 +++
 .../src/logical/table_source.rs               | 36 ++++++++++++++++++-
 .../src/physical_plan/planner/row_level.rs    | 15 ++++++--
 crates/sail-delta-lake/src/table/mod.rs       |  1 +
 crates/sail-delta-lake/src/table_format.rs    | 10 ++++++
 5 files changed, 62 insertions(+), 4 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/mod.rs b/crates/sail-delta-lake/src/datasource/mod.rs
index acd80a2..1b976a8 100644
--- a/crates/sail-delta-lake/src/datasource/mod.rs
+++ b/crates/sail-delta-lake/src/datasource/mod.rs
@@ -239,6 +239,7 @@ impl DeltaScanConfigBuilder {
             commit_version_column_name,
             commit_timestamp_column_name,
             delta_log_replay_strategy: self.delta_log_replay_strategy,
+            time_travel: false,
         })
     }
 }
@@ -263,4 +264,7 @@ pub struct DeltaScanConfig {
     /// Strategy for log replay planning.
     #[serde(default)]
     pub delta_log_replay_strategy: DeltaLogReplayStrategy,
+    /// Whether a specific version of the table was requested, rather than the latest one.
+    #[serde(default)]
+    pub time_travel: bool,
 }
diff --git a/crates/sail-delta-lake/src/logical/table_source.rs b/crates/sail-delta-lake/src/logical/table_source.rs
index 16c36c6..c8ed773 100644
--- a/crates/sail-delta-lake/src/logical/table_source.rs
+++ b/crates/sail-delta-lake/src/logical/table_source.rs
@@ -2,8 +2,10 @@ use std::sync::Arc;
 
 use datafusion::arrow::datatypes::SchemaRef;
 use datafusion::common::Result;
-use datafusion::logical_expr::{Expr, TableProviderFilterPushDown, TableSource};
+use datafusion::common::tree_node::TreeNodeRecursion;
+use datafusion::logical_expr::{Expr, LogicalPlan, TableProviderFilterPushDown, TableSource};
 use sail_common_datafusion::datasource::MergeCapableSource;
+use url::Url;
 
 use crate::DeltaResult;
 use crate::datasource::{DeltaScanConfig, df_logical_schema, get_pushdown_filters};
@@ -76,6 +78,38 @@ impl DeltaTableSource {
     }
 }
 
+/// Finds the oldest snapshot of the table that the plan reads as its latest version.
+///
+/// A statement that derives what it writes from the table itself has to commit against
+/// the version it read, so that a commit made in between is detected as a conflict.
+pub(crate) fn find_scanned_snapshot(
+    plan: &LogicalPlan,
+    table_url: &Url,
+) -> Result<Option<Arc<DeltaSnapshot>>> {
+    let location = table_url.as_str().trim_end_matches('/');
+    let mut found: Option<Arc<DeltaSnapshot>> = None;
+    plan.apply_with_subqueries(|node| {
+        if let LogicalPlan::TableScan(scan) = node
+            && let Some(source) = scan.source.downcast_ref::<DeltaTableSource>()
+            && !source.config.time_travel
+            && source
+                .log_store
+                .config()
+                .location
+                .as_str()
+                .trim_end_matches('/')
+                == location
+            && found
+                .as_ref()
+                .is_none_or(|x| source.snapshot.version() < x.version())
+        {
+            found = Some(Arc::clone(&source.snapshot));
+        }
+        Ok(TreeNodeRecursion::Continue)
+    })?;
+    Ok(found)
+}
+
 impl TableSource for DeltaTableSource {
     fn schema(&self) -> SchemaRef {
         self.schema.clone()
diff --git a/crates/sail-delta-lake/src/physical_plan/planner/row_level.rs b/crates/sail-delta-lake/src/physical_plan/planner/row_level.rs
index 657b6ed..513b578 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/row_level.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/row_level.rs
@@ -13,12 +13,13 @@ use sail_data_source::resolve_listing_urls;
 use sail_logical_plan::merge::RowLevelWriteNode;
 use url::Url;
 
+use crate::logical::table_source::find_scanned_snapshot;
 use crate::options::r#gen::DeltaWriteOptions;
 use crate::physical_plan::planner::{
     DeltaPlannerConfig, MergePredicateInfo, OperationOverride, PlannerContext, RowLevelTargetInfo,
     RowLevelWriteInfo, plan_delete, plan_delete_mor, plan_merge, plan_merge_mor,
 };
-use crate::table::open_table_with_object_store;
+use crate::table::{DeltaSnapshot, open_table_with_object_store};
 use crate::table_format::{DeltaTableFormat, split_delta_write_options_and_table_properties};
 
 /// Creates a Delta physical execution plan for a unified `RowLevelWriteNode`.
@@ -47,7 +48,7 @@ pub async fn create_row_level_write_physical_plan(
                 with_schema_evolution: false,
                 operation_override: None,
             };
-            create_delta_row_level_writer(ctx, info).await
+            create_delta_row_level_writer(ctx, info, None).await
         }
         RowLevelCommand::Merge => {
             let write_plan = node.write_plan().ok_or_else(|| {
@@ -94,7 +95,12 @@ pub async fn create_row_level_write_physical_plan(
                 with_schema_evolution: node.with_schema_evolution(),
                 operation_override: build_merge_operation_override(node),
             };
-            create_delta_row_level_writer(ctx, info).await
+            // The expanded plan was built from the snapshot read during logical planning.
+            // The rewrite must be planned and committed against that same snapshot.
+            let table_url =
+                DeltaTableFormat::parse_table_url(ctx, vec![info.target.path.clone()]).await?;
+            let table_snapshot = find_scanned_snapshot(write_plan, &table_url)?;
+            create_delta_row_level_writer(ctx, info, table_snapshot).await
         }
         RowLevelCommand::Update => internal_err!("UPDATE is not yet implemented"),
     }
@@ -103,6 +109,7 @@ pub async fn create_row_level_write_physical_plan(
 async fn create_delta_row_level_writer(
     ctx: &dyn Session,
     info: RowLevelWriteInfo,
+    table_snapshot: Option<Arc<DeltaSnapshot>>,
 ) -> Result<Arc<dyn ExecutionPlan>> {
     let effective_strategy = if matches!(
         info.command,
@@ -149,6 +156,7 @@ async fn create_delta_row_level_writer(
                 None,
                 true,
             )
+            .with_table_snapshot(table_snapshot)
             .with_lakehouse_table(lakehouse_table.clone());
             let merge_ctx = PlannerContext::new(ctx, merge_config);
             plan_merge_mor(&merge_ctx, info).await
@@ -186,6 +194,7 @@ async fn create_delta_row_level_writer(
                 None,
                 true,
             )
+            .with_table_snapshot(table_snapshot)
             .with_lakehouse_table(lakehouse_table.clone());
             let merge_ctx = PlannerContext::new(ctx, merge_config);
             plan_merge(&merge_ctx, info).await
diff --git a/crates/sail-delta-lake/src/table/mod.rs b/crates/sail-delta-lake/src/table/mod.rs
index 4e8a66f..758caed 100644
--- a/crates/sail-delta-lake/src/table/mod.rs
+++ b/crates/sail-delta-lake/src/table/mod.rs
@@ -799,6 +799,7 @@ async fn load_delta_read_state(
         commit_version_column_name: None,
         commit_timestamp_column_name: None,
         delta_log_replay_strategy: options.delta_log_replay_strategy,
+        time_travel: options.version_as_of.is_some() || options.timestamp_as_of.is_some(),
     };
 
     Ok((snapshot, log_store, scan_config))
diff --git a/crates/sail-delta-lake/src/table_format.rs b/crates/sail-delta-lake/src/table_format.rs
index f1757f0..c3556b9 100644
--- a/crates/sail-delta-lake/src/table_format.rs
+++ b/crates/sail-delta-lake/src/table_format.rs
@@ -41,6 +41,7 @@ use url::Url;
 use crate::catalog_managed::{metadata_with_catalog_managed, protocol_with_catalog_managed};
 use crate::datasource::actions::adds_to_remove_actions;
 use crate::delta_log::StorageConfig;
+use crate::logical::table_source::find_scanned_snapshot;
 use crate::options::r#gen::{DeltaReadOptions, DeltaWriteOptions};
 use crate::physical_plan::planner::{DeltaPhysicalPlanner, DeltaPlannerConfig, PlannerContext};
 use crate::schema::manager::{canonicalize_partition_columns, is_check_constraint_property};
@@ -667,6 +668,15 @@ pub(crate) async fn plan_delta_write(
                 .cloned()
         })
         .transpose()?;
+    // An overwrite that reads the table it replaces must commit against the version it read.
+    let table_snapshot = match (&mode, table_snapshot) {
+        (PhysicalSinkMode::Overwrite | PhysicalSinkMode::OverwriteIf { .. }, Some(latest)) => Some(
+            find_scanned_snapshot(logical_input, &table_url)?
+                .filter(|scanned| scanned.version() < latest.version())
+                .unwrap_or(latest),
+        ),
+        (_, table_snapshot) => table_snapshot,
+    };
     let table_properties = table_properties.into_iter().collect::<HashMap<_, _>>();
     let metadata_configuration = resolve_delta_metadata_configuration(&table_properties)
         .map_err(|e| DataFusionError::External(Box::new(e)))?;
-- 
2.43.0


From 913c11339a83029e12539fa76ebf64013e6b71ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:30 +0000
Subject: [PATCH 12/37] fix: evaluate Delta predicates on partition columns
 exactly

---
 .../src/datasource/expressions.rs             | 71 ++++++++-----------
 crates/sail-delta-lake/src/datasource/mod.rs  |  1 +
 .../planner/metadata_predicate.rs             | 51 ++++++++++++-
 .../src/physical_plan/planner/op_delete.rs    |  6 +-
 .../src/physical_plan/planner/op_write.rs     |  6 +-
 5 files changed, 87 insertions(+), 48 deletions(-)

diff --git a/crates/sail-delta-lake/src/datasource/expressions.rs b/crates/sail-delta-lake/src/datasource/expressions.rs
index 806e1d9..4b6f5f3 100644
--- a/crates/sail-delta-lake/src/datasource/expressions.rs
+++ b/crates/sail-delta-lake/src/datasource/expressions.rs
@@ -22,8 +22,9 @@ use std::sync::Arc;
 use datafusion::arrow::datatypes::{DataType as ArrowDataType, FieldRef, Schema as ArrowSchema};
 use datafusion::catalog::Session;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
-use datafusion::common::{Column, DFSchema, Result, ScalarValue};
+use datafusion::common::{DFSchema, Result, ScalarValue};
 use datafusion::functions::core::getfield::GetFieldFunc;
+use datafusion::logical_expr::expr::InList;
 use datafusion::logical_expr::simplify::SimplifyContextBuilder;
 use datafusion::logical_expr::{BinaryExpr, Expr, Operator, TableProviderFilterPushDown};
 use datafusion::optimizer::simplify_expressions::ExprSimplifier;
@@ -37,6 +38,9 @@ use crate::spec::{ColumnMappingMode, DeltaResult};
 
 // [Credit]: <https://github.com/delta-io/delta-rs/blob/3607c314cbdd2ad06c6ee0677b92a29f695c71f3/crates/core/src/delta_datafusion/mod.rs>
 
+/// The longest IN list that the file pruning predicate evaluates.
+const MAX_EXACT_IN_LIST: usize = 20;
+
 /// Simplify a logical expression and convert it to a physical expression.
 pub fn simplify_expr(
     session: &dyn Session,
@@ -72,48 +76,35 @@ pub fn get_pushdown_filters(
 }
 
 /// Check if an expression is an exact predicate for the given columns.
-fn expr_is_exact_predicate_for_cols(partition_cols: &[String], expr: &Expr) -> bool {
-    let mut is_applicable = true;
-    let _ = expr.apply(|expr| match expr {
-        Expr::Column(Column { name, .. }) => {
-            is_applicable &= partition_cols.contains(name);
-
-            if is_applicable {
-                Ok(TreeNodeRecursion::Jump)
-            } else {
-                Ok(TreeNodeRecursion::Stop)
+/// Whether file pruning alone decides the predicate exactly, given that the partition
+/// columns are constant within each file. Pruning keeps the files of any expression it
+/// does not support, so everything but the plain forms has to be evaluated on the rows.
+pub(crate) fn expr_is_exact_predicate_for_cols(partition_cols: &[String], expr: &Expr) -> bool {
+    let is_column =
+        |expr: &Expr| matches!(expr, Expr::Column(column) if partition_cols.contains(&column.name));
+    let is_value = |expr: &Expr| matches!(expr, Expr::Literal(value, _) if !value.is_null());
+    match expr {
+        Expr::BinaryExpr(BinaryExpr { left, op, right }) => match op {
+            Operator::And | Operator::Or => {
+                expr_is_exact_predicate_for_cols(partition_cols, left)
+                    && expr_is_exact_predicate_for_cols(partition_cols, right)
             }
-        }
-        Expr::BinaryExpr(BinaryExpr { op, .. }) => {
-            is_applicable &= matches!(
-                op,
-                Operator::And
-                    | Operator::Or
-                    | Operator::NotEq
-                    | Operator::Eq
-                    | Operator::Gt
-                    | Operator::GtEq
-                    | Operator::Lt
-                    | Operator::LtEq
-            );
-            if is_applicable {
-                Ok(TreeNodeRecursion::Continue)
-            } else {
-                Ok(TreeNodeRecursion::Stop)
+            Operator::Eq
+            | Operator::NotEq
+            | Operator::Lt
+            | Operator::LtEq
+            | Operator::Gt
+            | Operator::GtEq => {
+                (is_column(left) && is_value(right)) || (is_value(left) && is_column(right))
             }
+            _ => false,
+        },
+        Expr::IsNull(expr) | Expr::IsNotNull(expr) => is_column(expr),
+        Expr::InList(InList { expr, list, .. }) => {
+            is_column(expr) && list.len() <= MAX_EXACT_IN_LIST && list.iter().all(is_value)
         }
-        Expr::Literal(..)
-        | Expr::Not(_)
-        | Expr::IsNotNull(_)
-        | Expr::IsNull(_)
-        | Expr::Between(_)
-        | Expr::InList(_) => Ok(TreeNodeRecursion::Continue),
-        _ => {
-            is_applicable = false;
-            Ok(TreeNodeRecursion::Stop)
-        }
-    });
-    is_applicable
+        _ => false,
+    }
 }
 
 /// Rewrite column references in a parquet pushdown predicate from logical names to the
diff --git a/crates/sail-delta-lake/src/datasource/mod.rs b/crates/sail-delta-lake/src/datasource/mod.rs
index 1b976a8..bc10524 100644
--- a/crates/sail-delta-lake/src/datasource/mod.rs
+++ b/crates/sail-delta-lake/src/datasource/mod.rs
@@ -44,6 +44,7 @@ pub mod schema;
 
 // Re-exports
 pub use actions::{adds_to_remove_actions, partitioned_file_from_action};
+pub(crate) use expressions::expr_is_exact_predicate_for_cols;
 pub use expressions::{
     PredicateProperties, collect_physical_columns, get_pushdown_filters,
     rewrite_predicate_for_column_mapping, simplify_expr,
diff --git a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
index f77d704..b929996 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/metadata_predicate.rs
@@ -3,17 +3,20 @@ use std::sync::Arc;
 
 use datafusion::arrow::datatypes::{DataType as ArrowDataType, Schema as ArrowSchema, SchemaRef};
 use datafusion::catalog::Session;
+use datafusion::common::tree_node::{Transformed, TreeNode, TreeNodeRecursion};
 use datafusion::common::{
-    Column as LogicalColumn, DataFusionError, Result, ScalarValue, ToDFSchema,
+    Column as LogicalColumn, DFSchema, DataFusionError, Result, ScalarValue, ToDFSchema,
 };
 use datafusion::functions::core::getfield::GetFieldFunc;
 use datafusion::logical_expr::expr::{Between, BinaryExpr, Cast, InList};
+use datafusion::logical_expr::simplify::SimplifyContextBuilder;
 use datafusion::logical_expr::utils::{conjunction, disjunction};
 use datafusion::logical_expr::{Expr, Operator};
+use datafusion::optimizer::simplify_expressions::ExprSimplifier;
 use datafusion::physical_plan::ExecutionPlan;
 use datafusion::physical_plan::filter::FilterExec;
 
-use crate::datasource::simplify_expr;
+use crate::datasource::{expr_is_exact_predicate_for_cols, simplify_expr};
 use crate::physical_plan::DeltaMetadataStatsExec;
 use crate::schema::{logical_to_physical_arrow_paths, make_physical_arrow_schema};
 use crate::spec::fields::{
@@ -30,6 +33,12 @@ pub(crate) fn predicate_requires_stats(expr: &Expr, partition_columns: &[String]
         .any(|col| !partition_columns.contains(col.name.as_str()))
 }
 
+/// Whether the metadata filter selects exactly the files all of whose rows satisfy the
+/// predicate, so that they can be removed without reading them.
+pub(crate) fn predicate_selects_whole_files(expr: &Expr, partition_columns: &[String]) -> bool {
+    expr_is_exact_predicate_for_cols(partition_columns, expr)
+}
+
 pub(crate) fn build_metadata_filter(
     session: &dyn Session,
     input: Arc<dyn ExecutionPlan>,
@@ -48,6 +57,8 @@ pub(crate) fn build_metadata_filter(
     let rewritten = rewrite_predicate_for_metadata(predicate, &partition_columns, &stats_paths);
     if !needs_stats {
         let df_schema = input.schema().to_dfschema()?;
+        let rewritten =
+            cast_partition_columns(rewritten, &df_schema, snapshot.schema(), &partition_columns)?;
         let physical_expr = simplify_expr(session, &df_schema, rewritten)?;
         return Ok(Arc::new(FilterExec::try_new(physical_expr, input)?));
     }
@@ -59,6 +70,8 @@ pub(crate) fn build_metadata_filter(
         })?,
     ));
     let df_schema = input.schema().to_dfschema()?;
+    let rewritten =
+        cast_partition_columns(rewritten, &df_schema, snapshot.schema(), &partition_columns)?;
     let physical_expr = simplify_expr(session, &df_schema, rewritten)?;
     Ok(Arc::new(FilterExec::try_new(physical_expr, input)?))
 }
@@ -125,6 +138,40 @@ fn rewrite_predicate_for_metadata(
     .rewrite(expr)
 }
 
+/// The metadata columns hold partition values as strings. Compare them as the type that
+/// the partition column has in the table.
+fn cast_partition_columns(
+    expr: Expr,
+    df_schema: &DFSchema,
+    schema: &ArrowSchema,
+    partition_columns: &[String],
+) -> Result<Expr> {
+    let transformed = expr.transform(|expr| {
+        if let Expr::Column(column) = &expr
+            && partition_columns.contains(&column.name)
+        {
+            let data_type = schema.field_with_name(&column.name)?.data_type();
+            if data_type != &ArrowDataType::Utf8 {
+                let data_type = data_type.clone();
+                return Ok(Transformed::new(
+                    Expr::Cast(Cast::new(Box::new(expr), data_type)),
+                    true,
+                    TreeNodeRecursion::Jump,
+                ));
+            }
+        }
+        Ok(Transformed::no(expr))
+    })?;
+    if !transformed.transformed {
+        return Ok(transformed.data);
+    }
+    // The comparisons have to be coerced to the type of the column before they are simplified.
+    let context = SimplifyContextBuilder::default()
+        .with_schema(df_schema.clone().into())
+        .build();
+    ExprSimplifier::new(context).coerce(transformed.data, df_schema)
+}
+
 struct MetadataPredicateRewriter<'a> {
     partition_columns: HashSet<String>,
     stats_paths: &'a HashMap<Vec<String>, Vec<String>>,
diff --git a/crates/sail-delta-lake/src/physical_plan/planner/op_delete.rs b/crates/sail-delta-lake/src/physical_plan/planner/op_delete.rs
index d10c7b9..b6eb40e 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/op_delete.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/op_delete.rs
@@ -22,7 +22,7 @@ use sail_common_datafusion::schema_evolution::SchemaEvolutionPhysicalExprAdapter
 
 use super::commit::assemble_commit_plan;
 use super::context::PlannerContext;
-use super::metadata_predicate::{build_metadata_filter, predicate_requires_stats};
+use super::metadata_predicate::{build_metadata_filter, predicate_selects_whole_files};
 use super::utils::{LogReplayOptions, build_log_replay_pipeline_with_options};
 use crate::physical_plan::{
     DeltaCommitContext, DeltaDiscoveryExec, DeltaScanByAddsExec, DeltaWriterExecOptions,
@@ -57,7 +57,7 @@ pub async fn build_delete_plan(
 
     // Partition-only predicates can delete entire files without scanning data. In that case,
     // build a visible metadata pipeline over a log-derived meta table.
-    let partition_only = !predicate_requires_stats(&condition_expr, &partition_columns);
+    let partition_only = predicate_selects_whole_files(&condition_expr, &partition_columns);
     let log_replay_options = LogReplayOptions {
         // `DeltaRemoveActionsExec` decodes Add.stats to report numTouchedRows, including
         // for partition-only deletes where data-skipping itself does not need stats_json.
@@ -209,7 +209,7 @@ pub async fn build_delete_plan_mor(
     // Partition-only predicates can delete entire files without scanning data.
     // For MoR with partition-only predicates, we still fall back to file removal
     // since there's no benefit in writing DVs for entire files.
-    let partition_only = !predicate_requires_stats(&condition_expr, &partition_columns);
+    let partition_only = predicate_selects_whole_files(&condition_expr, &partition_columns);
     if partition_only {
         // For partition-only predicates, use the CoW path as it's more efficient
         // (just remove whole files).
diff --git a/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs b/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
index 660cdba..826a7c3 100644
--- a/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
+++ b/crates/sail-delta-lake/src/physical_plan/planner/op_write.rs
@@ -26,7 +26,7 @@ use sail_common_datafusion::datasource::PhysicalSinkMode;
 use sail_common_datafusion::logical_expr::ExprWithSource;
 
 use super::context::PlannerContext;
-use super::metadata_predicate::{build_metadata_filter, predicate_requires_stats};
+use super::metadata_predicate::{build_metadata_filter, predicate_selects_whole_files};
 use super::utils::{
     LogReplayOptions, align_schemas_for_union, build_log_replay_pipeline_with_options,
     build_standard_write_layers,
@@ -239,7 +239,7 @@ async fn build_overwrite_if_plan(
         ctx.lakehouse_table().cloned(),
     )?);
 
-    let partition_only = !predicate_requires_stats(&condition_expr, &partition_columns);
+    let partition_only = predicate_selects_whole_files(&condition_expr, &partition_columns);
     let log_replay_options = LogReplayOptions {
         // `DeltaRemoveActionsExec` decodes Add.stats to report numTouchedRows, including
         // for partition-only overwrites where data-skipping itself does not need stats_json.
@@ -295,7 +295,7 @@ async fn build_old_data_plan(
     table_schema: SchemaRef,
 ) -> Result<Arc<dyn ExecutionPlan>> {
     let version = snapshot_state.version();
-    let partition_only = !predicate_requires_stats(&condition_expr, ctx.partition_columns());
+    let partition_only = predicate_selects_whole_files(&condition_expr, ctx.partition_columns());
     let log_replay_options = LogReplayOptions {
         include_stats_json: !partition_only,
         ..Default::default()
-- 
2.43.0


From 2b924d3a7ed21815529dbfd7e1728fe36bdfefaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:06 +0000
Subject: [PATCH 13/37] fix: do not let LIMIT prune Iceberg data files by
 record counts that include deleted rows

---
 .../sail-iceberg/src/datasource/provider.rs   | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index d35281e..eaa55e1 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -864,10 +864,20 @@ impl TableProvider for IcebergTableProvider {
             .await?;
         log::trace!("Loaded {} data files", data_files_with_seq.len());
 
+        // Build the delete-file index for this snapshot. Rejects v3 deletion vectors.
+        log::trace!("Building delete file index...");
+        let delete_index = self
+            .build_delete_file_index(&store_ctx, &manifest_list)
+            .await?;
+
+        // The record counts of data files include deleted rows, so they cannot tell
+        // how many files are enough for the limit when there are deletes.
+        let pruning_limit = limit.filter(|_| delete_index.is_empty());
+
         // Build filter conjunction and run DataFusion-based pruning on Iceberg metrics.
         // Preserve per-file sequence numbers through the prune.
         let filter_expr = conjunction(pruning_filters.iter().cloned());
-        if filter_expr.is_some() || limit.is_some() {
+        if filter_expr.is_some() || pruning_limit.is_some() {
             let (files_only, seqs_only): (Vec<DataFile>, Vec<i64>) =
                 data_files_with_seq.iter().cloned().unzip();
             let seq_by_path: HashMap<String, i64> = files_only
@@ -878,7 +888,7 @@ impl TableProvider for IcebergTableProvider {
             let (kept, _mask) = prune_files(
                 session,
                 &pruning_filters,
-                limit,
+                pruning_limit,
                 self.rebuild_logical_schema_for_filters(projection, filters),
                 files_only,
                 &self.schema,
@@ -896,12 +906,6 @@ impl TableProvider for IcebergTableProvider {
             );
         }
 
-        // Build the delete-file index for this snapshot. Rejects v3 deletion vectors.
-        log::trace!("Building delete file index...");
-        let delete_index = self
-            .build_delete_file_index(&store_ctx, &manifest_list)
-            .await?;
-
         // Partition each data file into "clean" (no matching deletes) vs "dirty"
         // (one or more matching deletes) buckets. We only pay the cost of
         // `IcebergDeleteApplyExec` for dirty files.
@@ -1111,8 +1115,14 @@ impl IcebergTableProvider {
             .load_data_files_with_seq(session, &pruning_filters, &store_ctx, &manifest_list)
             .await?;
 
+        let delete_index = self
+            .build_delete_file_index(&store_ctx, &manifest_list)
+            .await?;
+        // The record counts of data files include deleted rows.
+        let pruning_limit = limit.filter(|_| delete_index.is_empty());
+
         let filter_expr = conjunction(pruning_filters.iter().cloned());
-        if filter_expr.is_some() || limit.is_some() {
+        if filter_expr.is_some() || pruning_limit.is_some() {
             let (files_only, seqs_only): (Vec<DataFile>, Vec<i64>) =
                 data_files_with_seq.iter().cloned().unzip();
             let seq_by_path: HashMap<String, i64> = files_only
@@ -1123,7 +1133,7 @@ impl IcebergTableProvider {
             let (kept, _mask) = prune_files(
                 session,
                 &pruning_filters,
-                limit,
+                pruning_limit,
                 self.rebuild_logical_schema_for_filters(None, filters),
                 files_only,
                 &self.schema,
@@ -1143,9 +1153,6 @@ impl IcebergTableProvider {
             )));
         }
 
-        let delete_index = self
-            .build_delete_file_index(&store_ctx, &manifest_list)
-            .await?;
         let object_store_url = self.object_store_url()?;
         let file_column_name = self.file_column_name.as_ref().ok_or_else(|| {
             datafusion::common::DataFusionError::Internal(
-- 
2.43.0


From 801ab9f30fc2d71c410225842169773c439b8a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 14/37] fix: find Iceberg metadata that is newer than a lagging
 version hint

---
 crates/sail-iceberg/src/table/metadata_loader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/sail-iceberg/src/table/metadata_loader.rs b/crates/sail-iceberg/src/table/metadata_loader.rs
index 9babc3a..89b3857 100644
--- a/crates/sail-iceberg/src/table/metadata_loader.rs
+++ b/crates/sail-iceberg/src/table/metadata_loader.rs
@@ -234,6 +234,14 @@ pub async fn find_latest_metadata_file(
                     .then_with(|| left.1.cmp(&right.1))
             });
 
+            // The hint is written after the metadata file, so it may lag behind the latest version.
+            let hinted_version = hinted_version.map(|hint| {
+                files.iter().fold(
+                    hint,
+                    |latest, (v, _, _)| if *v == latest + 1 { *v } else { latest },
+                )
+            });
+
             if let Some(fname) = hinted_filename
                 && let Some((version, path, _)) =
                     files.iter().rev().find(|(_, p, _)| p.ends_with(&fname))
-- 
2.43.0


From 70234fd0c51856fe524dd83c004a0a16cf819b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 15/37] fix: do not treat a failed listing of Iceberg metadata
 as a missing table

---
 .../src/physical_plan/commit/commit_exec.rs   | 14 ++++++-------
 .../sail-iceberg/src/table/metadata_loader.rs | 20 +++++++++++++++----
 crates/sail-iceberg/src/table/mod.rs          |  1 +
 crates/sail-iceberg/src/table_format.rs       | 12 +++++------
 4 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs b/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
index 41f5743..c31a3bc 100644
--- a/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
+++ b/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
@@ -616,9 +616,11 @@ impl ExecutionPlan for IcebergCommitExec {
             // Managed external catalogs use the authoritative metadata-location.
             // Path tables may record metadata-location in the session catalog for display, but
             // their current state is discovered from the metadata directory and version hint.
-            let latest_meta_res = match catalog_metadata_location.as_deref() {
-                Some(location) => Ok(metadata_location_to_object_path_string(location)?),
-                None => crate::table::find_latest_metadata_file(&object_store, &table_url).await,
+            let latest_meta = match catalog_metadata_location.as_deref() {
+                Some(location) => Some(metadata_location_to_object_path_string(location)?),
+                None => {
+                    crate::table::try_find_latest_metadata_file(&object_store, &table_url).await?
+                }
             };
             let catalog_metadata_table = catalog_table
                 .as_ref()
@@ -639,7 +641,7 @@ impl ExecutionPlan for IcebergCommitExec {
                 catalog_commit_mode
             );
 
-            if latest_meta_res.is_err() {
+            let Some(initial_latest_meta) = latest_meta else {
                 Self::validate_requirements(None, &commit_info.requirements)?;
                 if let Some(catalog_table) = catalog_metadata_update_table {
                     let bootstrap_result = bootstrap_new_table_with_style(
@@ -691,9 +693,7 @@ impl ExecutionPlan for IcebergCommitExec {
                 }
 
                 return commit_count_batch(schema, commit_info.row_count);
-            }
-
-            let initial_latest_meta = latest_meta_res?;
+            };
 
             let mut attempt = 0;
             loop {
diff --git a/crates/sail-iceberg/src/table/metadata_loader.rs b/crates/sail-iceberg/src/table/metadata_loader.rs
index 89b3857..84519f3 100644
--- a/crates/sail-iceberg/src/table/metadata_loader.rs
+++ b/crates/sail-iceberg/src/table/metadata_loader.rs
@@ -180,6 +180,17 @@ pub async fn find_latest_metadata_file(
     object_store: &Arc<dyn object_store::ObjectStore>,
     table_url: &Url,
 ) -> Result<String> {
+    match try_find_latest_metadata_file(object_store, table_url).await? {
+        Some(metadata_file) => Ok(metadata_file),
+        None => plan_err!("No metadata files found in table location: {}", table_url),
+    }
+}
+
+/// Finds the latest metadata file, or `None` if the location holds no table.
+pub(crate) async fn try_find_latest_metadata_file(
+    object_store: &Arc<dyn object_store::ObjectStore>,
+    table_url: &Url,
+) -> Result<Option<String>> {
     use futures::TryStreamExt;
 
     log::trace!("Finding latest metadata file");
@@ -251,7 +262,7 @@ pub async fn find_latest_metadata_file(
                     version,
                     path
                 );
-                return Ok(path.clone());
+                return Ok(Some(path.clone()));
             } else if let Some(hint) = hinted_version
                 && let Some((version, path, _)) = files.iter().rev().find(|(v, _, _)| *v == hint)
             {
@@ -260,7 +271,7 @@ pub async fn find_latest_metadata_file(
                     version,
                     path
                 );
-                return Ok(path.clone());
+                return Ok(Some(path.clone()));
             }
 
             if let Some((version, latest_file, _)) = files.last() {
@@ -269,11 +280,12 @@ pub async fn find_latest_metadata_file(
                     version,
                     latest_file
                 );
-                Ok(latest_file.clone())
+                Ok(Some(latest_file.clone()))
             } else {
-                plan_err!("No metadata files found in table location: {}", table_url)
+                Ok(None)
             }
         }
+        Err(object_store::Error::NotFound { .. }) => Ok(None),
         Err(e) => {
             plan_err!("Failed to list metadata directory: {}", e)
         }
diff --git a/crates/sail-iceberg/src/table/mod.rs b/crates/sail-iceberg/src/table/mod.rs
index 803d2e6..b33fbd5 100644
--- a/crates/sail-iceberg/src/table/mod.rs
+++ b/crates/sail-iceberg/src/table/mod.rs
@@ -16,6 +16,7 @@ use chrono::{DateTime, NaiveDateTime, TimeZone, Utc};
 use datafusion::catalog::Session;
 use datafusion::common::{DataFusionError, Result};
 pub use metadata_loader::find_latest_metadata_file;
+pub(crate) use metadata_loader::try_find_latest_metadata_file;
 use url::Url;
 
 use crate::datasource::provider::IcebergTableProvider;
diff --git a/crates/sail-iceberg/src/table_format.rs b/crates/sail-iceberg/src/table_format.rs
index a382d31..2c342cc 100644
--- a/crates/sail-iceberg/src/table_format.rs
+++ b/crates/sail-iceberg/src/table_format.rs
@@ -63,7 +63,7 @@ use crate::table::metadata_loader::{
     encode_metadata_file, load_metadata_file_bytes, metadata_file_extension_from_properties,
     metadata_file_version_from_path, metadata_location_to_object_path_string, write_version_hint,
 };
-use crate::table::{Table, find_latest_metadata_file};
+use crate::table::{Table, find_latest_metadata_file, try_find_latest_metadata_file};
 use crate::utils::metadata::metadata_files_for_version;
 use crate::utils::partition_transform::{
     catalog_partition_field_from_iceberg, format_partition_expr, format_partition_exprs,
@@ -483,13 +483,13 @@ pub(crate) async fn plan_iceberg_write(
         .object_store_registry
         .get_store(&table_url)
         .map_err(|e| DataFusionError::External(Box::new(e)))?;
-    let exists_res = match metadata_location.as_deref() {
+    let existing_metadata_path = match metadata_location.as_deref() {
         Some(location) if catalog_managed_table => {
-            metadata_location_to_object_path_string(location)
+            Some(metadata_location_to_object_path_string(location)?)
         }
-        _ => find_latest_metadata_file(&store, &table_url).await,
+        _ => try_find_latest_metadata_file(&store, &table_url).await?,
     };
-    let table_exists = exists_res.is_ok();
+    let table_exists = existing_metadata_path.is_some();
 
     match mode {
         PhysicalSinkMode::ErrorIfExists if table_exists => {
@@ -504,7 +504,7 @@ pub(crate) async fn plan_iceberg_write(
         _ => {}
     }
 
-    let table = if let Ok(metadata_path) = &exists_res {
+    let table = if let Some(metadata_path) = &existing_metadata_path {
         Some(
             Table::load_with_metadata_location(ctx, table_url.clone(), Some(metadata_path.clone()))
                 .await?,
-- 
2.43.0


From a7484ff4257a93cfbac6307afd3df2a86d7a9360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:09 +0000
Subject: [PATCH 16/37] fix: follow only metadata derived from the hinted
 Iceberg version

---
 .../sail-iceberg/src/table/metadata_loader.rs | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/crates/sail-iceberg/src/table/metadata_loader.rs b/crates/sail-iceberg/src/table/metadata_loader.rs
index 84519f3..bfe7ed4 100644
--- a/crates/sail-iceberg/src/table/metadata_loader.rs
+++ b/crates/sail-iceberg/src/table/metadata_loader.rs
@@ -23,6 +23,8 @@ use object_store::ObjectStoreExt;
 use object_store::path::Path as ObjectPath;
 use url::Url;
 
+use crate::spec::TableMetadata;
+
 const METADATA_COMPRESSION_PROPERTY: &str = "write.metadata.compression-codec";
 const METADATA_COMPRESSION_NONE: &str = "none";
 const METADATA_COMPRESSION_GZIP: &str = "gzip";
@@ -245,14 +247,6 @@ pub(crate) async fn try_find_latest_metadata_file(
                     .then_with(|| left.1.cmp(&right.1))
             });
 
-            // The hint is written after the metadata file, so it may lag behind the latest version.
-            let hinted_version = hinted_version.map(|hint| {
-                files.iter().fold(
-                    hint,
-                    |latest, (v, _, _)| if *v == latest + 1 { *v } else { latest },
-                )
-            });
-
             if let Some(fname) = hinted_filename
                 && let Some((version, path, _)) =
                     files.iter().rev().find(|(_, p, _)| p.ends_with(&fname))
@@ -266,6 +260,15 @@ pub(crate) async fn try_find_latest_metadata_file(
             } else if let Some(hint) = hinted_version
                 && let Some((version, path, _)) = files.iter().rev().find(|(v, _, _)| *v == hint)
             {
+                let (mut version, mut path) = (*version, path);
+                // The hint is written after the metadata file, so it may lag behind:
+                // follow the later versions that have been derived from the hinted one.
+                while let Some((_, next, _)) =
+                    files.iter().rev().find(|(v, _, _)| *v == version + 1)
+                    && is_metadata_successor(object_store, path, next).await?
+                {
+                    (version, path) = (version + 1, next);
+                }
                 log::trace!(
                     "find_latest_metadata_file: selected by numeric hint version {} path={}",
                     version,
@@ -292,6 +295,22 @@ pub(crate) async fn try_find_latest_metadata_file(
     }
 }
 
+/// Whether a metadata file records another one as the version it replaces.
+async fn is_metadata_successor(
+    object_store: &Arc<dyn object_store::ObjectStore>,
+    metadata_file: &str,
+    successor: &str,
+) -> Result<bool> {
+    let data = load_metadata_file_bytes(object_store, successor).await?;
+    let metadata =
+        TableMetadata::from_json(&data).map_err(|e| DataFusionError::External(Box::new(e)))?;
+    let name = |path: &str| path.rsplit('/').next().map(str::to_string);
+    Ok(metadata
+        .metadata_log
+        .last()
+        .is_some_and(|previous| name(&previous.metadata_file) == name(metadata_file)))
+}
+
 #[cfg(test)]
 mod tests {
     use std::collections::HashMap;
-- 
2.43.0


From 1b76e476df0660f4199882894c77eddf3c3fbd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:19 +0000
Subject: [PATCH 17/37] fix: do not overwrite or clean up Iceberg metadata
 versions that another or the same writer has created

---
 .../sail-iceberg/src/operations/bootstrap.rs  | 92 ++++++++++++++-----
 .../src/physical_plan/commit/commit_exec.rs   | 63 +++++++++----
 .../sail-iceberg/src/table/metadata_loader.rs | 47 ++++++++++
 crates/sail-iceberg/src/table_format.rs       | 28 +++---
 4 files changed, 176 insertions(+), 54 deletions(-)

diff --git a/crates/sail-iceberg/src/operations/bootstrap.rs b/crates/sail-iceberg/src/operations/bootstrap.rs
index 3b56d9f..d6c2966 100644
--- a/crates/sail-iceberg/src/operations/bootstrap.rs
+++ b/crates/sail-iceberg/src/operations/bootstrap.rs
@@ -33,8 +33,8 @@ use crate::spec::schema::Schema as IcebergSchema;
 use crate::spec::snapshots::{MAIN_BRANCH, SnapshotBuilder, SnapshotReference, SnapshotRetention};
 use crate::spec::{FormatVersion, SortOrder, TableMetadata};
 use crate::table::metadata_loader::{
-    encode_metadata_file, metadata_file_extension_from_properties, metadata_file_version_from_path,
-    write_version_hint,
+    MetadataFileCreation, create_metadata_file, encode_metadata_file,
+    metadata_file_extension_from_properties, metadata_file_version_from_path, write_version_hint,
 };
 use crate::utils::WritePathMode;
 
@@ -62,6 +62,36 @@ pub struct BootstrapResult {
     pub metadata_file: String,
 }
 
+/// Why the metadata of a table could not be bootstrapped.
+#[derive(Debug)]
+pub enum BootstrapError {
+    /// Another writer has created the metadata version first.
+    Conflict { metadata_file: String },
+    /// The metadata has not been written.
+    Failed(DataFusionError),
+    /// The metadata may have been written, so the files it refers to must be kept.
+    Unknown(DataFusionError),
+}
+
+impl From<DataFusionError> for BootstrapError {
+    fn from(error: DataFusionError) -> Self {
+        Self::Failed(error)
+    }
+}
+
+impl From<BootstrapError> for DataFusionError {
+    fn from(error: BootstrapError) -> Self {
+        match error {
+            BootstrapError::Conflict { metadata_file } => DataFusionError::Execution(format!(
+                "Iceberg metadata file {metadata_file} already exists due to concurrent metadata updates"
+            )),
+            BootstrapError::Failed(error) | BootstrapError::Unknown(error) => error,
+        }
+    }
+}
+
+type BootstrapOutcome = std::result::Result<BootstrapResult, BootstrapError>;
+
 fn initial_metadata_version(metadata_style: NewTableMetadataStyle) -> i32 {
     match metadata_style {
         NewTableMetadataStyle::Hadoop => 1,
@@ -74,7 +104,7 @@ async fn write_metadata_version(
     table_metadata: TableMetadata,
     version: i32,
     metadata_style: NewTableMetadataStyle,
-) -> Result<BootstrapResult> {
+) -> BootstrapOutcome {
     let metadata_json = table_metadata
         .to_json()
         .map_err(|error| DataFusionError::External(Box::new(error)))?;
@@ -92,14 +122,28 @@ async fn write_metadata_version(
     let metadata_bytes = encode_metadata_file(&metadata_file, &metadata_json)
         .map_err(|error| DataFusionError::External(Box::new(error)))?;
     let metadata_path = object_store::path::Path::from(metadata_file.as_str());
-    store_ctx
-        .prefixed
-        .put(
-            &metadata_path,
-            object_store::PutPayload::from(Bytes::from(metadata_bytes)),
-        )
-        .await
-        .map_err(|error| DataFusionError::External(Box::new(error)))?;
+    match create_metadata_file(
+        &store_ctx.prefixed,
+        &metadata_path,
+        Bytes::from(metadata_bytes),
+    )
+    .await
+    {
+        MetadataFileCreation::Created => {}
+        MetadataFileCreation::AlreadyExists => {
+            return Err(BootstrapError::Conflict { metadata_file });
+        }
+        MetadataFileCreation::Failed(error) => {
+            return Err(BootstrapError::Failed(DataFusionError::External(Box::new(
+                error,
+            ))));
+        }
+        MetadataFileCreation::Unknown(error) => {
+            return Err(BootstrapError::Unknown(DataFusionError::External(
+                Box::new(error),
+            )));
+        }
+    }
     write_version_hint(&store_ctx.prefixed, &version_hint).await;
 
     Ok(BootstrapResult {
@@ -199,7 +243,7 @@ pub async fn bootstrap_new_table_with_style(
     store_ctx: &StoreContext,
     commit_info: &IcebergCommitInfo,
     metadata_style: NewTableMetadataStyle,
-) -> Result<BootstrapResult> {
+) -> BootstrapOutcome {
     let iceberg_schema: IcebergSchema = commit_info
         .schema
         .clone()
@@ -265,9 +309,9 @@ pub async fn bootstrap_new_table_with_style(
         Some(snapshot) => snapshot,
         None => {
             prepared_snapshot.cleanup().await;
-            return Err(DataFusionError::Plan(
+            return Err(BootstrapError::Failed(DataFusionError::Plan(
                 "No snapshot in bootstrap commit".to_string(),
-            ));
+            )));
         }
     };
 
@@ -322,7 +366,10 @@ pub async fn bootstrap_new_table_with_style(
         metadata_style,
     )
     .await;
-    if metadata_result.is_err() {
+    if matches!(
+        metadata_result,
+        Err(BootstrapError::Conflict { .. } | BootstrapError::Failed(_))
+    ) {
         prepared_snapshot.cleanup().await;
     }
     metadata_result
@@ -335,7 +382,7 @@ pub async fn bootstrap_empty_table_metadata(
     partition_spec: PartitionSpec,
     table_properties: &[(String, String)],
     metadata_style: NewTableMetadataStyle,
-) -> Result<BootstrapResult> {
+) -> BootstrapOutcome {
     let (format_version, table_properties) =
         crate::properties::metadata_properties_from_table_properties(table_properties)?;
     let format_version = format_version.max(format_version_for_schema(&iceberg_schema));
@@ -386,7 +433,7 @@ pub async fn replace_empty_table_metadata(
     previous_metadata: &TableMetadata,
     latest_meta_path: &str,
     metadata_style: NewTableMetadataStyle,
-) -> Result<BootstrapResult> {
+) -> BootstrapOutcome {
     let (requested_format_version, table_properties) =
         crate::properties::metadata_properties_from_table_properties(table_properties)?;
     let format_version = previous_metadata
@@ -468,7 +515,7 @@ pub async fn bootstrap_first_snapshot(
     latest_meta_path: &str,
     previous_metadata_file: Option<&str>,
     persist_strategy: PersistStrategy,
-) -> Result<BootstrapResult> {
+) -> BootstrapOutcome {
     let iceberg_schema = table_metadata
         .current_schema()
         .cloned()
@@ -491,9 +538,9 @@ pub async fn bootstrap_first_snapshot(
         Some(snapshot) => snapshot,
         None => {
             prepared_snapshot.cleanup().await;
-            return Err(DataFusionError::Plan(
+            return Err(BootstrapError::Failed(DataFusionError::Plan(
                 "No snapshot in bootstrap commit".to_string(),
-            ));
+            )));
         }
     };
 
@@ -540,7 +587,10 @@ pub async fn bootstrap_first_snapshot(
     };
     let metadata_result =
         write_metadata_version(store_ctx, table_metadata, version, metadata_style).await;
-    if metadata_result.is_err() {
+    if matches!(
+        metadata_result,
+        Err(BootstrapError::Conflict { .. } | BootstrapError::Failed(_))
+    ) {
         prepared_snapshot.cleanup().await;
     }
     metadata_result
diff --git a/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs b/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
index c31a3bc..e3f7fbd 100644
--- a/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
+++ b/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
@@ -39,7 +39,7 @@ use crate::catalog_support::commit::{
 };
 use crate::io::StoreContext;
 use crate::operations::bootstrap::{
-    NewTableMetadataStyle, PersistStrategy, bootstrap_first_snapshot,
+    BootstrapError, NewTableMetadataStyle, PersistStrategy, bootstrap_first_snapshot,
     bootstrap_new_table_with_style, prepare_bootstrap_snapshot,
 };
 use crate::operations::helpers::format_version_for_schema;
@@ -54,8 +54,9 @@ use crate::spec::{
     DataFile, PartitionSpec, Schema as IcebergSchema, TableMetadata, TableRequirement,
 };
 use crate::table::metadata_loader::{
-    encode_metadata_file, load_metadata_file_bytes, metadata_file_extension_from_properties,
-    metadata_file_version_from_path, metadata_location_to_object_path_string, write_version_hint,
+    MetadataFileCreation, create_metadata_file, encode_metadata_file, load_metadata_file_bytes,
+    metadata_file_extension_from_properties, metadata_file_version_from_path,
+    metadata_location_to_object_path_string, write_version_hint,
 };
 use crate::table_format::metadata_location_from_properties;
 use crate::utils::get_object_store_from_context;
@@ -650,7 +651,10 @@ impl ExecutionPlan for IcebergCommitExec {
                         &commit_info,
                         NewTableMetadataStyle::Uuid,
                     )
-                    .await?;
+                    .await
+                    .inspect_err(|error| {
+                        task_files_may_be_committed = matches!(error, BootstrapError::Unknown(_));
+                    })?;
                     task_files_may_be_committed = true;
                     let new_metadata_location =
                         Self::table_metadata_location(&table_url, &bootstrap_result.metadata_file)?;
@@ -674,7 +678,10 @@ impl ExecutionPlan for IcebergCommitExec {
                         &commit_info,
                         NewTableMetadataStyle::Hadoop,
                     )
-                    .await?;
+                    .await
+                    .inspect_err(|error| {
+                        task_files_may_be_committed = matches!(error, BootstrapError::Unknown(_));
+                    })?;
                     task_files_may_be_committed = true;
                     if let Some(catalog_table) = catalog_registered_metadata_table {
                         let new_metadata_location = Self::table_metadata_location(
@@ -879,7 +886,7 @@ impl ExecutionPlan for IcebergCommitExec {
                         .is_some()
                         .then_some(catalog_metadata_location.as_deref())
                         .flatten();
-                    let bootstrap_result = bootstrap_first_snapshot(
+                    let bootstrap_result = match bootstrap_first_snapshot(
                         &table_url,
                         &store_ctx,
                         &commit_info,
@@ -888,7 +895,24 @@ impl ExecutionPlan for IcebergCommitExec {
                         previous_metadata_file,
                         persist_strategy,
                     )
-                    .await?;
+                    .await
+                    {
+                        Ok(bootstrap_result) => bootstrap_result,
+                        Err(BootstrapError::Conflict { metadata_file }) => {
+                            log::warn!(
+                                "Metadata file {metadata_file} already exists. Retrying attempt {attempt}"
+                            );
+                            if attempt >= MAX_COMMIT_RETRIES {
+                                return Err(commit_conflict_error());
+                            }
+                            continue;
+                        }
+                        Err(BootstrapError::Failed(error)) => return Err(error),
+                        Err(BootstrapError::Unknown(error)) => {
+                            task_files_may_be_committed = true;
+                            return Err(error);
+                        }
+                    };
                     task_files_may_be_committed = true;
                     if let (Some(catalog_table), Some(previous_metadata_location)) =
                         (catalog_fallback_table, catalog_metadata_location.as_deref())
@@ -1129,20 +1153,17 @@ impl ExecutionPlan for IcebergCommitExec {
                 );
 
                 let metadata_path = object_store::path::Path::from(metadata_file.as_str());
-                let put_opts = object_store::PutOptions {
-                    mode: object_store::PutMode::Create,
-                    ..Default::default()
-                };
-                let payload = object_store::PutPayload::from(Bytes::from(metadata_bytes));
-                match store_ctx
-                    .prefixed
-                    .put_opts(&metadata_path, payload, put_opts)
-                    .await
+                match create_metadata_file(
+                    &store_ctx.prefixed,
+                    &metadata_path,
+                    Bytes::from(metadata_bytes),
+                )
+                .await
                 {
-                    Ok(_) => {
+                    MetadataFileCreation::Created => {
                         task_files_may_be_committed = true;
                     }
-                    Err(object_store::Error::AlreadyExists { .. }) => {
+                    MetadataFileCreation::AlreadyExists => {
                         log::warn!(
                             "Metadata file {} already exists for version {}. Retrying attempt {}",
                             metadata_file,
@@ -1155,10 +1176,14 @@ impl ExecutionPlan for IcebergCommitExec {
                         }
                         continue;
                     }
-                    Err(error) => {
+                    MetadataFileCreation::Failed(error) => {
                         prepared_snapshot.cleanup().await;
                         return Err(DataFusionError::External(Box::new(error)));
                     }
+                    MetadataFileCreation::Unknown(error) => {
+                        task_files_may_be_committed = true;
+                        return Err(DataFusionError::External(Box::new(error)));
+                    }
                 }
                 let version_files = metadata_files_for_version(&store_ctx, next_version).await?;
                 let conflict_after_write = version_files.iter().any(|path| path != &metadata_file);
diff --git a/crates/sail-iceberg/src/table/metadata_loader.rs b/crates/sail-iceberg/src/table/metadata_loader.rs
index bfe7ed4..97bd900 100644
--- a/crates/sail-iceberg/src/table/metadata_loader.rs
+++ b/crates/sail-iceberg/src/table/metadata_loader.rs
@@ -162,6 +162,53 @@ pub(crate) async fn write_version_hint(
     }
 }
 
+/// Creates a metadata file, which must not exist yet.
+///
+/// A failed request may still have created the file if only its response was lost.
+/// The file is therefore read back after a failure: files that it refers to must be kept
+/// unless it is known that it does not exist.
+pub(crate) async fn create_metadata_file(
+    object_store: &Arc<dyn object_store::ObjectStore>,
+    metadata_path: &ObjectPath,
+    data: Bytes,
+) -> MetadataFileCreation {
+    let put_opts = object_store::PutOptions {
+        mode: object_store::PutMode::Create,
+        ..Default::default()
+    };
+    let payload = object_store::PutPayload::from(data.clone());
+    let error = match object_store
+        .put_opts(metadata_path, payload, put_opts)
+        .await
+    {
+        Ok(_) => return MetadataFileCreation::Created,
+        Err(object_store::Error::AlreadyExists { .. }) => {
+            return MetadataFileCreation::AlreadyExists;
+        }
+        Err(error) => error,
+    };
+    let existing = match object_store.get(metadata_path).await {
+        Ok(existing) => existing.bytes().await,
+        Err(error) => Err(error),
+    };
+    match existing {
+        Ok(existing) if existing == data => MetadataFileCreation::Created,
+        Ok(_) => MetadataFileCreation::AlreadyExists,
+        Err(object_store::Error::NotFound { .. }) => MetadataFileCreation::Failed(error),
+        Err(_) => MetadataFileCreation::Unknown(error),
+    }
+}
+
+/// The outcome of creating a metadata file.
+pub(crate) enum MetadataFileCreation {
+    Created,
+    AlreadyExists,
+    /// The file has not been created.
+    Failed(object_store::Error),
+    /// The file may or may not have been created.
+    Unknown(object_store::Error),
+}
+
 pub(crate) async fn load_metadata_file_bytes(
     object_store: &Arc<dyn object_store::ObjectStore>,
     metadata_location: &str,
diff --git a/crates/sail-iceberg/src/table_format.rs b/crates/sail-iceberg/src/table_format.rs
index 2c342cc..0b13770 100644
--- a/crates/sail-iceberg/src/table_format.rs
+++ b/crates/sail-iceberg/src/table_format.rs
@@ -60,8 +60,9 @@ use crate::physical_plan::write_context::{
 use crate::schema_evolution::SchemaEvolver;
 use crate::spec::{MetadataLog, PartitionSpec, Schema, Snapshot, TableMetadata};
 use crate::table::metadata_loader::{
-    encode_metadata_file, load_metadata_file_bytes, metadata_file_extension_from_properties,
-    metadata_file_version_from_path, metadata_location_to_object_path_string, write_version_hint,
+    MetadataFileCreation, create_metadata_file, encode_metadata_file, load_metadata_file_bytes,
+    metadata_file_extension_from_properties, metadata_file_version_from_path,
+    metadata_location_to_object_path_string, write_version_hint,
 };
 use crate::table::{Table, find_latest_metadata_file, try_find_latest_metadata_file};
 use crate::utils::metadata::metadata_files_for_version;
@@ -640,18 +641,15 @@ impl IcebergTableFormat {
             let encoded_metadata = encode_metadata_file(&metadata_file, &metadata_json)
                 .map_err(|error| DataFusionError::External(Box::new(error)))?;
             let metadata_path = object_store::path::Path::from(metadata_file.as_str());
-            let put_opts = object_store::PutOptions {
-                mode: object_store::PutMode::Create,
-                ..Default::default()
-            };
-            let payload = object_store::PutPayload::from(Bytes::from(encoded_metadata));
-            match store_ctx
-                .prefixed
-                .put_opts(&metadata_path, payload, put_opts)
-                .await
+            match create_metadata_file(
+                &store_ctx.prefixed,
+                &metadata_path,
+                Bytes::from(encoded_metadata),
+            )
+            .await
             {
-                Ok(_) => {}
-                Err(object_store::Error::AlreadyExists { .. }) => {
+                MetadataFileCreation::Created => {}
+                MetadataFileCreation::AlreadyExists => {
                     log::warn!(
                         "Iceberg metadata file {} already exists for version {}. Retrying attempt {}",
                         metadata_file,
@@ -663,7 +661,9 @@ impl IcebergTableFormat {
                     }
                     continue;
                 }
-                Err(error) => return Err(DataFusionError::External(Box::new(error))),
+                MetadataFileCreation::Failed(error) | MetadataFileCreation::Unknown(error) => {
+                    return Err(DataFusionError::External(Box::new(error)));
+                }
             }
 
             let version_files = metadata_files_for_version(&store_ctx, next_version).await?;
-- 
2.43.0


From 321db70708c095c071a0a3aa4410c3fc5be4158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:19 +0000
Subject: [PATCH 18/37] fix: an INSERT OVERWRITE of an empty Delta table is not
 a blind append

---
 crates/sail-delta-lake/src/transaction/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/sail-delta-lake/src/transaction/mod.rs b/crates/sail-delta-lake/src/transaction/mod.rs
index 94286c2..2526399 100644
--- a/crates/sail-delta-lake/src/transaction/mod.rs
+++ b/crates/sail-delta-lake/src/transaction/mod.rs
@@ -41,9 +41,9 @@ use crate::delta_log::{
 };
 use crate::snapshot::DeltaSnapshotConfig;
 use crate::spec::{
-    Action, CommitAction, DeltaError, DeltaOperation, DeltaResult, Metadata, TableFeature,
-    Transaction, VersionChecksum, checksum_path, logical_file_key, staged_commit_path,
-    temp_commit_path,
+    Action, CommitAction, DeltaError, DeltaOperation, DeltaResult, Metadata, SaveMode,
+    TableFeature, Transaction, VersionChecksum, checksum_path, logical_file_key,
+    staged_commit_path, temp_commit_path,
 };
 pub use crate::spec::{CommitConflictError, TransactionError};
 use crate::table::DeltaSnapshot;
@@ -659,7 +659,10 @@ impl CommitData {
 
     fn is_blind_append(actions: &[CommitAction], operation: &DeltaOperation) -> bool {
         match operation {
-            DeltaOperation::Write { predicate, .. } if predicate.is_none() => {
+            // An overwrite replaces whatever the table holds, even if it has not removed any file.
+            DeltaOperation::Write {
+                mode, predicate, ..
+            } if predicate.is_none() && *mode != SaveMode::Overwrite => {
                 actions.iter().all(|action| {
                     matches!(
                         action,
-- 
2.43.0


From be8bd6a86f1195ba006d6cc5d1a2c16f294e9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:42 +0000
Subject: [PATCH 19/37] fix: compare join filters with a literal on the left
 consistently with other filters

---
 crates/sail-logical-optimizer/src/lib.rs      | 10 +-
 .../src/simplify_expressions.rs               | 93 +++++++++++++++++++
 2 files changed, 102 insertions(+), 1 deletion(-)
 create mode 100644 crates/sail-logical-optimizer/src/simplify_expressions.rs

diff --git a/crates/sail-logical-optimizer/src/lib.rs b/crates/sail-logical-optimizer/src/lib.rs
index 16f4aa0..74c8f6a 100644
--- a/crates/sail-logical-optimizer/src/lib.rs
+++ b/crates/sail-logical-optimizer/src/lib.rs
@@ -4,9 +4,11 @@ use datafusion::optimizer::{Analyzer, AnalyzerRule, Optimizer, OptimizerRule};
 
 mod lateral_join;
 mod resolve_lambda_variables;
+mod simplify_expressions;
 
 use lateral_join::DecorrelateLateralProjection;
 use resolve_lambda_variables::ResolveLambdaVariables;
+use simplify_expressions::SimplifyExpressions;
 
 pub fn default_analyzer_rules() -> Vec<Arc<dyn AnalyzerRule + Send + Sync>> {
     // FIXME: Create analyzer rule for TypeCoercion in Sail
@@ -31,7 +33,13 @@ pub fn default_optimizer_rules() -> Vec<Arc<dyn OptimizerRule + Send + Sync>> {
     // in Filter/Aggregate) are left for DataFusion's `DecorrelateLateralJoin`.
     let mut custom: Vec<Arc<dyn OptimizerRule + Send + Sync>> =
         vec![Arc::new(DecorrelateLateralProjection::new())];
-    custom.extend(rules);
+    custom.extend(rules.into_iter().map(|rule| {
+        if rule.name() == SimplifyExpressions::NAME {
+            Arc::new(SimplifyExpressions::new(rule)) as Arc<dyn OptimizerRule + Send + Sync>
+        } else {
+            rule
+        }
+    }));
     // `ResolveLambdaVariables` must run after the built-in rules: constant
     // folding can change the type or nullability of higher-order function
     // arguments, and the lambda variable fields must be refreshed to match.
diff --git a/crates/sail-logical-optimizer/src/simplify_expressions.rs b/crates/sail-logical-optimizer/src/simplify_expressions.rs
new file mode 100644
index 0000000..689012a
--- /dev/null
+++ b/crates/sail-logical-optimizer/src/simplify_expressions.rs
@@ -0,0 +1,93 @@
+use std::sync::Arc;
+
+use datafusion::common::Result;
+use datafusion::common::tree_node::{Transformed, TreeNode};
+use datafusion::logical_expr::{BinaryExpr, Expr, LogicalPlan};
+use datafusion::optimizer::optimizer::ApplyOrder;
+use datafusion::optimizer::{OptimizerConfig, OptimizerRule};
+
+/// Extends the built-in `SimplifyExpressions` rule so that comparisons with a literal in
+/// filters and join filters have the literal on the right.
+///
+/// The built-in rule does this for neither join filters nor operands that only become literals
+/// by simplification. `PushDownFilter` combines join filters with the filters above the join,
+/// and takes two comparisons of the same column such as `x = 1` and `1 = x` for a contradiction.
+#[derive(Debug)]
+pub struct SimplifyExpressions {
+    inner: Arc<dyn OptimizerRule + Send + Sync>,
+}
+
+impl SimplifyExpressions {
+    pub const NAME: &'static str = "simplify_expressions";
+
+    pub fn new(inner: Arc<dyn OptimizerRule + Send + Sync>) -> Self {
+        Self { inner }
+    }
+}
+
+fn canonicalize_literals(expr: Expr) -> Result<Transformed<Expr>> {
+    expr.transform_up(|expr| match expr {
+        Expr::BinaryExpr(BinaryExpr { left, op, right })
+            if matches!(*left, Expr::Literal(..)) && !matches!(*right, Expr::Literal(..)) =>
+        {
+            match op.swap() {
+                Some(op) => Ok(Transformed::yes(Expr::BinaryExpr(BinaryExpr::new(
+                    right, op, left,
+                )))),
+                None => Ok(Transformed::no(Expr::BinaryExpr(BinaryExpr::new(
+                    left, op, right,
+                )))),
+            }
+        }
+        expr => Ok(Transformed::no(expr)),
+    })
+}
+
+fn canonicalize_filter(plan: LogicalPlan) -> Result<Transformed<LogicalPlan>> {
+    match plan {
+        LogicalPlan::Filter(mut filter) => {
+            let predicate = canonicalize_literals(filter.predicate)?;
+            filter.predicate = predicate.data;
+            Ok(Transformed::new_transformed(
+                LogicalPlan::Filter(filter),
+                predicate.transformed,
+            ))
+        }
+        LogicalPlan::Join(mut join) => {
+            let Some(filter) = join.filter.take() else {
+                return Ok(Transformed::no(LogicalPlan::Join(join)));
+            };
+            let filter = canonicalize_literals(filter)?;
+            join.filter = Some(filter.data);
+            Ok(Transformed::new_transformed(
+                LogicalPlan::Join(join),
+                filter.transformed,
+            ))
+        }
+        plan => Ok(Transformed::no(plan)),
+    }
+}
+
+impl OptimizerRule for SimplifyExpressions {
+    fn name(&self) -> &str {
+        Self::NAME
+    }
+
+    fn apply_order(&self) -> Option<ApplyOrder> {
+        self.inner.apply_order()
+    }
+
+    fn supports_rewrite(&self) -> bool {
+        self.inner.supports_rewrite()
+    }
+
+    fn rewrite(
+        &self,
+        plan: LogicalPlan,
+        config: &dyn OptimizerConfig,
+    ) -> Result<Transformed<LogicalPlan>> {
+        self.inner
+            .rewrite(plan, config)?
+            .transform_data(canonicalize_filter)
+    }
+}
-- 
2.43.0


From 03e48ab280d1a82043a0bf45678d181cf9fac832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:42 +0000
Subject: [PATCH 20/37] fix: write the sign of negative decimal partition
 values of Delta tables

---
 crates/sail-delta-lake/src/conversion/scalar.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sail-delta-lake/src/conversion/scalar.rs b/crates/sail-delta-lake/src/conversion/scalar.rs
index ef153b5..c765617 100644
--- a/crates/sail-delta-lake/src/conversion/scalar.rs
+++ b/crates/sail-delta-lake/src/conversion/scalar.rs
@@ -493,10 +493,13 @@ fn serialize_decimal(bits: i128, scale: i8) -> String {
     match scale.cmp(&0) {
         Ordering::Equal => bits.to_string(),
         Ordering::Greater => {
-            let value = bits;
+            let value = bits.unsigned_abs();
             let scale_u32 = scale as u32;
-            let scalar_multiple = 10_i128.pow(scale_u32);
+            let scalar_multiple = 10_u128.pow(scale_u32);
             let mut string = String::new();
+            if bits < 0 {
+                string.push('-');
+            }
             string.push_str((value / scalar_multiple).to_string().as_str());
             string.push('.');
             string.push_str(&format!(
-- 
2.43.0


From 5eb4367ce4cafa7f3606981c9965fdad5747149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:42 +0000
Subject: [PATCH 21/37] fix: do not write Delta bounds for decimals that lose
 precision

---
 crates/sail-delta-lake/src/writer/stats.rs | 50 ++++++++++++++--------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/crates/sail-delta-lake/src/writer/stats.rs b/crates/sail-delta-lake/src/writer/stats.rs
index 7f949e4..30cc967 100644
--- a/crates/sail-delta-lake/src/writer/stats.rs
+++ b/crates/sail-delta-lake/src/writer/stats.rs
@@ -475,7 +475,21 @@ enum StatsScalar {
     Uuid(uuid::Uuid),
 }
 
+/// The largest unscaled decimal value up to which a JSON number represents the decimal exactly.
+const MAX_EXACT_UNSCALED_DECIMAL: u128 = 999_999_999_999_999;
+
 impl StatsScalar {
+    /// Bounds that JSON cannot represent exactly are not recorded,
+    /// since files would be skipped that contain matching values.
+    fn try_from_decimal(unscaled: i128, scale: i32) -> Result<Self, DeltaTableError> {
+        if unscaled.unsigned_abs() > MAX_EXACT_UNSCALED_DECIMAL {
+            return Err(DeltaTableError::generic(format!(
+                "Decimal without exact representation in statistics: {unscaled} with scale {scale}"
+            )));
+        }
+        Ok(Self::Decimal(unscaled as f64 / 10.0_f64.powi(scale)))
+    }
+
     fn try_from_stats(
         stats: &Statistics,
         logical_type: Option<&LogicalType>,
@@ -501,8 +515,7 @@ impl StatsScalar {
                 Ok(Self::Date(date))
             }
             (Statistics::Int32(v), Some(LogicalType::Decimal { scale, .. })) => {
-                let val = get_stat!(v) as f64 / 10.0_f64.powi(*scale);
-                Ok(Self::Decimal(val))
+                Self::try_from_decimal(get_stat!(v) as i128, *scale)
             }
             (Statistics::Int32(v), _) => Ok(Self::Int32(get_stat!(v))),
             (
@@ -532,8 +545,7 @@ impl StatsScalar {
                 }
             }
             (Statistics::Int64(v), Some(LogicalType::Decimal { scale, .. })) => {
-                let val = get_stat!(v) as f64 / 10.0_f64.powi(*scale);
-                Ok(Self::Decimal(val))
+                Self::try_from_decimal(get_stat!(v) as i128, *scale)
             }
             (Statistics::Int64(v), _) => Ok(Self::Int64(get_stat!(v))),
             (Statistics::Float(v), _) => Ok(Self::Float32(get_stat!(v))),
@@ -568,23 +580,12 @@ impl StatsScalar {
                 }
                 .unwrap_or_default();
 
-                let val = if val.len() <= 16 {
-                    i128::from_be_bytes(sign_extend_be(val)) as f64
-                } else {
+                if val.len() > 16 {
                     return Err(DeltaTableError::generic(format!(
                         "Decimal too large: {val:?}, precision: {precision}"
                     )));
-                };
-
-                let mut val = val / 10.0_f64.powi(*scale);
-
-                if val.is_normal()
-                    && (val.trunc() as i128).to_string().len() > (precision - scale) as usize
-                {
-                    val = f64::from_bits(val.to_bits() - 1);
                 }
-
-                Ok(Self::Decimal(val))
+                Self::try_from_decimal(i128::from_be_bytes(sign_extend_be(val)), *scale)
             }
             (Statistics::FixedLenByteArray(v), Some(LogicalType::Uuid)) => {
                 let val = if use_min {
@@ -673,6 +674,8 @@ struct AggregatedStats {
     pub min: Option<StatsScalar>,
     pub max: Option<StatsScalar>,
     pub null_count: u64,
+    /// Whether there are values in some row group whose bounds cannot be recorded.
+    pub unbounded: bool,
 }
 
 impl From<(&Statistics, Option<&LogicalType>)> for AggregatedStats {
@@ -682,16 +685,19 @@ impl From<(&Statistics, Option<&LogicalType>)> for AggregatedStats {
         if stats.min_bytes_opt().is_some() && stats.max_bytes_opt().is_some() {
             let min = StatsScalar::try_from_stats(stats, logical_type, true).ok();
             let max = StatsScalar::try_from_stats(stats, logical_type, false).ok();
+            let unbounded = min.is_none() || max.is_none();
             Self {
-                min,
-                max,
+                min: min.filter(|_| !unbounded),
+                max: max.filter(|_| !unbounded),
                 null_count,
+                unbounded,
             }
         } else {
             Self {
                 min: None,
                 max: None,
                 null_count,
+                unbounded: false,
             }
         }
     }
@@ -721,6 +727,12 @@ impl AddAssign for AggregatedStats {
         };
 
         self.null_count += rhs.null_count;
+
+        self.unbounded |= rhs.unbounded;
+        if self.unbounded {
+            self.min = None;
+            self.max = None;
+        }
     }
 }
 
-- 
2.43.0


From ebcc535cd7aba38dd570cc28eda702676458b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:52 +0000
Subject: [PATCH 22/37] fix: minimum and maximum statistics of floating-point
 columns are not exact

---
 .../sail-data-source/src/listing/planner.rs   | 14 +++++++++++++-
 .../sail-delta-lake/src/datasource/pruning.rs | 18 ++++++++++++++++++
 crates/sail-delta-lake/src/datasource/scan.rs |  8 +++++++-
 crates/sail-delta-lake/src/snapshot/stats.rs  | 13 ++++++++++++-
 .../sail-iceberg/src/datasource/provider.rs   | 19 +++++++++++++++----
 5 files changed, 65 insertions(+), 7 deletions(-)

diff --git a/crates/sail-data-source/src/listing/planner.rs b/crates/sail-data-source/src/listing/planner.rs
index 9caa00f..a9ca7a9 100644
--- a/crates/sail-data-source/src/listing/planner.rs
+++ b/crates/sail-data-source/src/listing/planner.rs
@@ -473,7 +473,19 @@ async fn do_collect_statistics_and_ordering(
             source.config().compression,
         )
         .await?;
-    let statistics = Arc::new(file_meta.statistics);
+    let mut statistics = file_meta.statistics;
+    // The minimum and maximum values in file metadata do not account for `NaN`.
+    for (field, column) in file_schema
+        .fields()
+        .iter()
+        .zip(statistics.column_statistics.iter_mut())
+    {
+        if field.data_type().is_floating() {
+            column.min_value = column.min_value.clone().to_inexact();
+            column.max_value = column.max_value.clone().to_inexact();
+        }
+    }
+    let statistics = Arc::new(statistics);
 
     file_statistic_cache.as_ref().map(|x| {
         x.put(
diff --git a/crates/sail-delta-lake/src/datasource/pruning.rs b/crates/sail-delta-lake/src/datasource/pruning.rs
index f9036f2..3d754b7 100644
--- a/crates/sail-delta-lake/src/datasource/pruning.rs
+++ b/crates/sail-delta-lake/src/datasource/pruning.rs
@@ -124,6 +124,24 @@ pub(crate) fn arrow_type_contains_timestamp(data_type: &DataType) -> bool {
     }
 }
 
+/// Minimum and maximum values of floating-point columns do not account for `NaN`,
+/// so they are no exact bounds of the values in a data file.
+pub(crate) fn arrow_type_contains_float(data_type: &DataType) -> bool {
+    match data_type {
+        DataType::Float16 | DataType::Float32 | DataType::Float64 => true,
+        DataType::Struct(fields) => fields
+            .iter()
+            .any(|field| arrow_type_contains_float(field.data_type())),
+        DataType::List(element)
+        | DataType::ListView(element)
+        | DataType::LargeList(element)
+        | DataType::LargeListView(element)
+        | DataType::FixedSizeList(element, _) => arrow_type_contains_float(element.data_type()),
+        DataType::Map(entries, _) => arrow_type_contains_float(entries.data_type()),
+        _ => false,
+    }
+}
+
 /// Result of file pruning operation
 #[derive(Debug, Clone)]
 pub struct PruningResult {
diff --git a/crates/sail-delta-lake/src/datasource/scan.rs b/crates/sail-delta-lake/src/datasource/scan.rs
index 441d27b..92d88cc 100644
--- a/crates/sail-delta-lake/src/datasource/scan.rs
+++ b/crates/sail-delta-lake/src/datasource/scan.rs
@@ -43,7 +43,9 @@ use sail_common_datafusion::schema_evolution::{
 use sail_common_datafusion::variant::with_variant_extension_if_marked_storage;
 
 use crate::conversion::ScalarConverter;
-use crate::datasource::pruning::{arrow_type_contains_timestamp, widen_timestamp_max_scalar};
+use crate::datasource::pruning::{
+    arrow_type_contains_float, arrow_type_contains_timestamp, widen_timestamp_max_scalar,
+};
 use crate::datasource::{DeltaScanConfig, create_object_store_url, partitioned_file_from_action};
 use crate::delta_log::LogStoreRef;
 use crate::schema::arrow_field_physical_name;
@@ -682,6 +684,10 @@ fn stats_for_add(action: &Add, file_schema: &SchemaRef) -> Result<Option<Arc<Sta
             min_value = min_value.to_inexact();
             max_value = max_value.map(widen_timestamp_max_scalar).to_inexact();
         }
+        if arrow_type_contains_float(field.data_type()) {
+            min_value = min_value.to_inexact();
+            max_value = max_value.to_inexact();
+        }
 
         column_statistics.push(ColumnStatistics {
             null_count,
diff --git a/crates/sail-delta-lake/src/snapshot/stats.rs b/crates/sail-delta-lake/src/snapshot/stats.rs
index fc3489b..f4819b6 100644
--- a/crates/sail-delta-lake/src/snapshot/stats.rs
+++ b/crates/sail-delta-lake/src/snapshot/stats.rs
@@ -35,7 +35,8 @@ use log::warn;
 
 use super::DeltaSnapshot;
 use crate::datasource::pruning::{
-    arrow_type_contains_timestamp, widen_timestamp_max_scalar, widen_timestamp_max_stat,
+    arrow_type_contains_float, arrow_type_contains_timestamp, widen_timestamp_max_scalar,
+    widen_timestamp_max_stat,
 };
 use crate::schema::arrow_field_physical_name;
 use crate::spec::fields::{
@@ -386,6 +387,16 @@ impl<'a> SnapshotPruningStats<'a> {
             max_value = max_value.map(widen_timestamp_max_scalar).to_inexact();
         }
 
+        let contains_float = self
+            .snapshot
+            .schema()
+            .field_with_name(name)
+            .is_ok_and(|field| arrow_type_contains_float(field.data_type()));
+        if !is_partition && contains_float {
+            min_value = min_value.to_inexact();
+            max_value = max_value.to_inexact();
+        }
+
         Ok(ColumnStatistics {
             null_count,
             max_value,
diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index eaa55e1..86d84da 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -76,6 +76,17 @@ fn iceberg_schema_evolution_adapter() -> Arc<dyn PhysicalExprAdapterFactory> {
     ))
 }
 
+/// Bounds of floating-point columns do not account for `NaN`,
+/// so they are no exact minimum and maximum of the values in a data file.
+fn bound_precision(value: ScalarValue) -> Precision<ScalarValue> {
+    match value {
+        ScalarValue::Float16(_) | ScalarValue::Float32(_) | ScalarValue::Float64(_) => {
+            Precision::Inexact(value)
+        }
+        _ => Precision::Exact(value),
+    }
+}
+
 /// Iceberg table provider for DataFusion
 #[derive(Debug, Clone)]
 pub struct IcebergTableProvider {
@@ -723,11 +734,11 @@ impl IcebergTableProvider {
                 null_count: Precision::Exact(null_counts[i]),
                 max_value: max_scalars[i]
                     .clone()
-                    .map(Precision::Exact)
+                    .map(bound_precision)
                     .unwrap_or(Precision::Absent),
                 min_value: min_scalars[i]
                     .clone()
-                    .map(Precision::Exact)
+                    .map(bound_precision)
                     .unwrap_or(Precision::Absent),
                 distinct_count: Precision::Absent,
                 sum_value: Precision::Absent,
@@ -771,14 +782,14 @@ impl IcebergTableProvider {
                     .lower_bounds()
                     .get(&field_id)
                     .map(|datum| primitive_to_scalar_default(&datum.literal))
-                    .map(Precision::Exact)
+                    .map(bound_precision)
                     .unwrap_or(Precision::Absent);
 
                 let max_value = data_file
                     .upper_bounds()
                     .get(&field_id)
                     .map(|datum| primitive_to_scalar_default(&datum.literal))
-                    .map(Precision::Exact)
+                    .map(bound_precision)
                     .unwrap_or(Precision::Absent);
 
                 ColumnStatistics {
-- 
2.43.0


From 76434e24c25bfeae1926c97948dd135928a29a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:52 +0000
Subject: [PATCH 23/37] fix: boolean literals in Delta filters are not decided
 by partition values alone

---
 crates/sail-delta-lake/src/datasource/expressions.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/sail-delta-lake/src/datasource/expressions.rs b/crates/sail-delta-lake/src/datasource/expressions.rs
index 4b6f5f3..4df01ff 100644
--- a/crates/sail-delta-lake/src/datasource/expressions.rs
+++ b/crates/sail-delta-lake/src/datasource/expressions.rs
@@ -82,7 +82,13 @@ pub fn get_pushdown_filters(
 pub(crate) fn expr_is_exact_predicate_for_cols(partition_cols: &[String], expr: &Expr) -> bool {
     let is_column =
         |expr: &Expr| matches!(expr, Expr::Column(column) if partition_cols.contains(&column.name));
-    let is_value = |expr: &Expr| matches!(expr, Expr::Literal(value, _) if !value.is_null());
+    // Comparisons with boolean values are later simplified to forms that pruning does not decide.
+    let is_value = |expr: &Expr| {
+        matches!(
+            expr,
+            Expr::Literal(value, _) if !value.is_null() && !matches!(value, ScalarValue::Boolean(_))
+        )
+    };
     match expr {
         Expr::BinaryExpr(BinaryExpr { left, op, right }) => match op {
             Operator::And | Operator::Or => {
-- 
2.43.0


From 6c5c314f53ae030366d16979e7ae997ea450a57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:52 +0000
Subject: [PATCH 24/37] fix: a filter on partition columns that evaluates to
 null does not select files

---
 crates/sail-data-source/src/listing/planner.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/sail-data-source/src/listing/planner.rs b/crates/sail-data-source/src/listing/planner.rs
index a9ca7a9..506f8f0 100644
--- a/crates/sail-data-source/src/listing/planner.rs
+++ b/crates/sail-data-source/src/listing/planner.rs
@@ -14,6 +14,7 @@ use datafusion::execution::cache::TableScopedPath;
 use datafusion::execution::cache::cache_manager::CachedFileMetadata;
 use datafusion::logical_expr::dml::InsertOp;
 use datafusion::logical_expr::expr_rewriter::unnormalize_cols;
+use datafusion::logical_expr::utils::conjunction;
 use datafusion::logical_expr::{Expr, LogicalPlan, TableScan, UserDefinedLogicalNode};
 use datafusion::physical_expr::create_lex_ordering;
 use datafusion::physical_expr_common::sort_expr::LexOrdering;
@@ -352,6 +353,14 @@ async fn list_files_for_scan<'a>(
         .map(|field| (field.name().clone(), field.data_type().clone()))
         .collect();
 
+    // The partition pruning does not look at the validity of the filter value,
+    // so a filter that evaluates to null must be turned into one that is false.
+    let mut filters = filters.to_vec();
+    if let Some(filter) = conjunction(filters.iter().cloned()) {
+        filters.push(filter.is_true());
+    }
+    let filters = filters.as_slice();
+
     let store_ref = store.as_ref();
     let partition_cols_ref = partition_cols.as_slice();
     let path_glob_filter = source.config().path_glob_filter.as_ref();
-- 
2.43.0


From cb84425209ea689f59356af8ec35dea5eb51ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:52 +0000
Subject: [PATCH 25/37] fix: apply the projection in the Iceberg
 metadata-as-data scan

---
 crates/sail-iceberg/src/datasource/provider.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index 86d84da..7546060 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -1520,7 +1520,7 @@ impl IcebergTableProvider {
             log::debug!(
                 "metadata-as-data scan does not push down projection/filters/limit \
                  (projection_provided={}, num_filters={}, limit={:?}); relying on \
-                 the planner to apply them above the scan. Note: \
+                 the planner to apply filters and limit above the scan. Note: \
                  `supports_filters_pushdown` returns Unsupported in this mode so \
                  the planner does NOT drop filters from the outer plan.",
                 projection.is_some(),
@@ -1555,6 +1555,18 @@ impl IcebergTableProvider {
             ),
         );
 
-        Ok(scan_exec)
+        // The planner expects the schema of the scan to be the projected one.
+        let Some(projection) = projection else {
+            return Ok(scan_exec);
+        };
+        let exprs = projection
+            .iter()
+            .map(|&idx| {
+                let name = self.arrow_schema.field(idx).name();
+                let column: Arc<dyn PhysicalExpr> = Arc::new(Column::new(name, idx));
+                (column, name.clone())
+            })
+            .collect::<Vec<_>>();
+        Ok(Arc::new(ProjectionExec::try_new(exprs, scan_exec)?))
     }
 }
-- 
2.43.0


From 463b6d0a747256b7803aac975a30589cb2b34e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:52 +0000
Subject: [PATCH 26/37] fix: Iceberg year and month transforms of dates before
 1970

---
 crates/sail-iceberg/src/utils/transform.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sail-iceberg/src/utils/transform.rs b/crates/sail-iceberg/src/utils/transform.rs
index 6627e08..c5acced 100644
--- a/crates/sail-iceberg/src/utils/transform.rs
+++ b/crates/sail-iceberg/src/utils/transform.rs
@@ -195,7 +195,7 @@ const UNIX_EPOCH_YEAR: i32 = 1970;
 pub fn days_to_year(days: i32) -> i32 {
     #[expect(clippy::unwrap_used)]
     let epoch = chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Days::new(days as u64);
+    let date = epoch + chrono::TimeDelta::days(i64::from(days));
     date.year() - UNIX_EPOCH_YEAR
 }
 
@@ -208,7 +208,7 @@ pub fn micros_to_year(micros: i64) -> i32 {
 pub fn days_to_months(days: i32) -> i32 {
     #[expect(clippy::unwrap_used)]
     let epoch = chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Days::new(days as u64);
+    let date = epoch + chrono::TimeDelta::days(i64::from(days));
     (date.year() - UNIX_EPOCH_YEAR) * 12 + (date.month0() as i32)
 }
 
-- 
2.43.0


From c0e3ae8074959251e72e0e67f6190f09b2b5b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:52 +0000
Subject: [PATCH 27/37] fix: prune Iceberg data files only by predicates that
 their partition values decide

---
 .../sail-iceberg/src/datasource/provider.rs   | 108 +++++++------
 crates/sail-iceberg/src/datasource/pruning.rs | 151 ++++++++++--------
 2 files changed, 146 insertions(+), 113 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/provider.rs b/crates/sail-iceberg/src/datasource/provider.rs
index 7546060..d52cdd1 100644
--- a/crates/sail-iceberg/src/datasource/provider.rs
+++ b/crates/sail-iceberg/src/datasource/provider.rs
@@ -48,7 +48,8 @@ use url::Url;
 
 use crate::datasource::expressions::simplify_expr;
 use crate::datasource::pruning::{
-    prune_data_files_by_partition_values, prune_files, prune_manifests_by_partition_summaries,
+    is_exact_partition_literal, prune_data_files_by_partition_values, prune_files,
+    prune_manifests_by_partition_summaries,
 };
 use crate::datasource::type_converter::iceberg_schema_to_arrow;
 use crate::io::{
@@ -1302,25 +1303,22 @@ impl IcebergTableProvider {
 
     fn classify_pushdown_for_expr(&self, expr: &Expr) -> TableProviderFilterPushDown {
         use TableProviderFilterPushDown as FP;
-        // Identity partition columns can satisfy Eq/IN at partition level. Transformed
-        // partition source columns are useful for pruning but remain inexact because the
-        // original row predicate must still be evaluated.
+        // Identity partition columns can satisfy Eq/IN at partition level. Other filters
+        // on partition source columns are useful for pruning but remain inexact because
+        // the original row predicate must still be evaluated.
         match expr {
             Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
                 let (l, r) = (Self::strip_expr(left), Self::strip_expr(right));
                 match op {
                     Operator::Eq => {
-                        if let (Some(col), true) =
-                            (self.expr_as_column_name(l), self.expr_is_literal(r))
-                            && let Some(pushdown) = self.eq_in_pushdown_for_partition_col(&col)
-                        {
-                            return pushdown;
-                        }
-                        if let (Some(col), true) =
-                            (self.expr_as_column_name(r), self.expr_is_literal(l))
-                            && let Some(pushdown) = self.eq_in_pushdown_for_partition_col(&col)
-                        {
-                            return pushdown;
+                        for (column, literal) in [(l, r), (r, l)] {
+                            if let Some(col) = self.expr_as_column_name(column)
+                                && let Some(literal) = self.expr_as_literal(literal)
+                                && let Some(pushdown) =
+                                    self.eq_in_pushdown_for_partition_col(&col, &[literal])
+                            {
+                                return pushdown;
+                            }
                         }
                         FP::Unsupported
                     }
@@ -1345,13 +1343,14 @@ impl IcebergTableProvider {
             Expr::InList(in_list) if !in_list.negated => {
                 let e = Self::strip_expr(&in_list.expr);
                 if let Some(col) = self.expr_as_column_name(e) {
-                    let all_literals = in_list.list.iter().all(|it| self.expr_is_literal(it));
-                    if all_literals {
-                        self.eq_in_pushdown_for_partition_col(&col)
-                            .unwrap_or(TableProviderFilterPushDown::Unsupported)
-                    } else {
-                        TableProviderFilterPushDown::Unsupported
-                    }
+                    let literals = in_list
+                        .list
+                        .iter()
+                        .map(|it| self.expr_as_literal(it))
+                        .collect::<Option<Vec<_>>>();
+                    literals
+                        .and_then(|x| self.eq_in_pushdown_for_partition_col(&col, &x))
+                        .unwrap_or(TableProviderFilterPushDown::Unsupported)
                 } else {
                     TableProviderFilterPushDown::Unsupported
                 }
@@ -1393,7 +1392,6 @@ impl IcebergTableProvider {
 
     fn strip_expr(expr: &Expr) -> &Expr {
         match expr {
-            Expr::Cast(c) => Self::strip_expr(&c.expr),
             Expr::Alias(a) => Self::strip_expr(&a.expr),
             _ => expr,
         }
@@ -1406,44 +1404,54 @@ impl IcebergTableProvider {
         None
     }
 
+    fn expr_as_literal<'a>(&self, expr: &'a Expr) -> Option<&'a ScalarValue> {
+        match expr {
+            Expr::Literal(value, _) => Some(value),
+            _ => None,
+        }
+    }
+
     fn expr_is_literal(&self, expr: &Expr) -> bool {
-        matches!(expr, Expr::Literal(_, _))
+        self.expr_as_literal(expr).is_some()
     }
 
     fn eq_in_pushdown_for_partition_col(
         &self,
         col_name: &str,
+        literals: &[&ScalarValue],
     ) -> Option<TableProviderFilterPushDown> {
-        let only_identity = self.partition_source_col_only_uses_identity(col_name)?;
-        if only_identity {
-            Some(TableProviderFilterPushDown::Exact)
-        } else {
-            Some(TableProviderFilterPushDown::Inexact)
+        if !self.is_partition_source_col(col_name) {
+            return None;
         }
+        // The predicate must be evaluated on the rows as well unless the partition values
+        // of all the data files decide it.
+        let exact = self.schema.field_by_name(col_name).is_some_and(|field| {
+            literals
+                .iter()
+                .all(|x| is_exact_partition_literal(field, x))
+                && self.partition_specs.iter().all(|spec| {
+                    spec.fields().iter().any(|pf| {
+                        pf.source_id == field.id && matches!(pf.transform, Transform::Identity)
+                    })
+                })
+        });
+        Some(if exact {
+            TableProviderFilterPushDown::Exact
+        } else {
+            TableProviderFilterPushDown::Inexact
+        })
     }
 
     fn is_partition_source_col(&self, col_name: &str) -> bool {
-        self.partition_source_col_only_uses_identity(col_name)
-            .is_some()
-    }
-
-    fn partition_source_col_only_uses_identity(&self, col_name: &str) -> Option<bool> {
-        let mut found = false;
-        let mut only_identity = true;
-        for spec in &self.partition_specs {
-            for pf in spec.fields().iter() {
-                if matches!(pf.transform, Transform::Void | Transform::Unknown) {
-                    continue;
-                }
-                if let Some(field) = self.schema.field_by_id(pf.source_id)
-                    && field.name == col_name
-                {
-                    found = true;
-                    only_identity &= matches!(pf.transform, Transform::Identity);
-                }
-            }
-        }
-        found.then_some(only_identity)
+        self.partition_specs.iter().any(|spec| {
+            spec.fields().iter().any(|pf| {
+                !matches!(pf.transform, Transform::Void | Transform::Unknown)
+                    && self
+                        .schema
+                        .field_by_id(pf.source_id)
+                        .is_some_and(|field| field.name == col_name)
+            })
+        })
     }
 
     fn rebuild_logical_schema_for_filters(
diff --git a/crates/sail-iceberg/src/datasource/pruning.rs b/crates/sail-iceberg/src/datasource/pruning.rs
index a0b54c0..6f1b121 100644
--- a/crates/sail-iceberg/src/datasource/pruning.rs
+++ b/crates/sail-iceberg/src/datasource/pruning.rs
@@ -18,15 +18,16 @@ use datafusion::arrow::array::{ArrayRef, BooleanArray, UInt64Array};
 use datafusion::arrow::datatypes::Schema as ArrowSchema;
 use datafusion::catalog::Session;
 use datafusion::common::pruning::PruningStatistics;
-use datafusion::common::{Column, Result, ToDFSchema};
+use datafusion::common::{Column, Result, ScalarValue, ToDFSchema};
 use datafusion::logical_expr::utils::conjunction;
 use datafusion::logical_expr::{BinaryExpr, Expr, Operator};
 use datafusion::physical_optimizer::pruning::PruningPredicate;
 
+use crate::datasource::type_converter::iceberg_type_to_arrow;
 use crate::spec::partition::PartitionSpec;
 use crate::spec::transform::Transform;
 use crate::spec::types::values::{Datum, Literal, PrimitiveLiteral};
-use crate::spec::types::{PrimitiveType, Type};
+use crate::spec::types::{NestedField, PrimitiveType, Type};
 use crate::spec::{DataFile, Manifest, ManifestContentType, ManifestList, Schema};
 use crate::utils::conversions::{scalar_to_primitive_literal, to_scalar};
 use crate::utils::transform::apply_transform;
@@ -343,22 +344,49 @@ pub fn prune_manifest_entries(
         .collect()
 }
 
-fn collect_source_eq_filters(schema: &Schema, filters: &[Expr]) -> Vec<(i32, PrimitiveLiteral)> {
-    fn strip(expr: &Expr) -> &Expr {
-        match expr {
-            Expr::Cast(c) => strip(&c.expr),
-            Expr::Alias(a) => strip(&a.expr),
-            _ => expr,
-        }
+fn strip_alias(expr: &Expr) -> &Expr {
+    match expr {
+        Expr::Alias(a) => strip_alias(&a.expr),
+        _ => expr,
     }
+}
+
+/// The partition values of a column tell something about comparisons of the column itself
+/// with values of its own type, but not about comparisons of the column cast to another type.
+fn column_literal(field: &NestedField, scalar: &ScalarValue) -> Option<PrimitiveLiteral> {
+    let data_type = iceberg_type_to_arrow(field.field_type.as_ref()).ok()?;
+    if scalar.is_null() || scalar.data_type() != data_type {
+        return None;
+    }
+    scalar_to_primitive_literal(scalar).ok()
+}
 
+/// Whether the identity partition values of a column are the values of the column in every row.
+fn has_exact_partition_values(field: &NestedField) -> bool {
+    matches!(
+        field.field_type.as_ref(),
+        Type::Primitive(
+            PrimitiveType::Int
+                | PrimitiveType::Long
+                | PrimitiveType::String
+                | PrimitiveType::Date
+        )
+    )
+}
+
+/// Whether identity partition values decide the equality of a column and a value for every row.
+pub(super) fn is_exact_partition_literal(field: &NestedField, scalar: &ScalarValue) -> bool {
+    has_exact_partition_values(field) && column_literal(field, scalar).is_some()
+}
+
+fn collect_source_eq_filters(schema: &Schema, filters: &[Expr]) -> Vec<(i32, PrimitiveLiteral)> {
     let mut result = Vec::new();
 
     fn visit_expr(acc: &mut Vec<(i32, PrimitiveLiteral)>, schema: &Schema, e: &Expr) {
         match e {
             Expr::BinaryExpr(BinaryExpr { left, op, right }) if *op == Operator::Eq => {
-                let l = strip(left);
-                let r = strip(right);
+                let l = strip_alias(left);
+                let r = strip_alias(right);
 
                 // col = lit
                 if let Expr::Column(c) = l
@@ -366,7 +394,7 @@ fn collect_source_eq_filters(schema: &Schema, filters: &[Expr]) -> Vec<(i32, Pri
                 {
                     let col_name = c.name.clone();
                     if let Some(field) = schema.field_by_name(&col_name)
-                        && let Ok(pl) = scalar_to_primitive_literal(sv)
+                        && let Some(pl) = column_literal(field, sv)
                     {
                         acc.push((field.id, pl));
                         return;
@@ -379,7 +407,7 @@ fn collect_source_eq_filters(schema: &Schema, filters: &[Expr]) -> Vec<(i32, Pri
                 {
                     let col_name = c.name.clone();
                     if let Some(field) = schema.field_by_name(&col_name)
-                        && let Ok(pl) = scalar_to_primitive_literal(sv)
+                        && let Some(pl) = column_literal(field, sv)
                     {
                         acc.push((field.id, pl));
                     }
@@ -402,34 +430,28 @@ fn collect_source_eq_filters(schema: &Schema, filters: &[Expr]) -> Vec<(i32, Pri
 fn collect_source_in_filters(
     schema: &Schema,
     filters: &[Expr],
-) -> HashMap<i32, Vec<PrimitiveLiteral>> {
-    fn strip(expr: &Expr) -> &Expr {
-        match expr {
-            Expr::Cast(c) => strip(&c.expr),
-            Expr::Alias(a) => strip(&a.expr),
-            _ => expr,
-        }
-    }
-
-    let mut result: HashMap<_, Vec<_>> = HashMap::new();
+) -> Vec<(i32, Vec<PrimitiveLiteral>)> {
+    let mut result = Vec::new();
 
-    fn visit_expr(acc: &mut HashMap<i32, Vec<PrimitiveLiteral>>, schema: &Schema, e: &Expr) {
+    fn visit_expr(acc: &mut Vec<(i32, Vec<PrimitiveLiteral>)>, schema: &Schema, e: &Expr) {
         match e {
             Expr::InList(in_list) if !in_list.negated => {
-                let e = strip(&in_list.expr);
+                let e = strip_alias(&in_list.expr);
                 if let Expr::Column(c) = e
                     && let Some(field) = schema.field_by_name(&c.name)
                 {
-                    let mut vals = Vec::new();
-                    for item in &in_list.list {
-                        if let Expr::Literal(sv, _) = item
-                            && let Ok(pl) = scalar_to_primitive_literal(sv)
-                        {
-                            vals.push(pl);
-                        }
-                    }
-                    if !vals.is_empty() {
-                        acc.entry(field.id).or_default().extend(vals);
+                    let vals = in_list
+                        .list
+                        .iter()
+                        .map(|item| match item {
+                            Expr::Literal(sv, _) => column_literal(field, sv),
+                            _ => None,
+                        })
+                        .collect::<Option<Vec<_>>>();
+                    if let Some(vals) = vals
+                        && !vals.is_empty()
+                    {
+                        acc.push((field.id, vals));
                     }
                 }
             }
@@ -450,6 +472,8 @@ fn collect_source_in_filters(
 #[derive(Clone)]
 struct PartitionPredicate {
     field_index: usize,
+    /// Whether a missing partition value stands for null, which no constraint allows.
+    rejects_null: bool,
     constraint: PartitionConstraint,
 }
 
@@ -487,6 +511,8 @@ fn partition_predicates_for_spec(
             continue;
         };
         let source_type = source_field.field_type.as_ref();
+        let rejects_null = matches!(partition_field.transform, Transform::Identity)
+            && has_exact_partition_values(source_field);
 
         for (_, literal) in eq_filters
             .iter()
@@ -497,27 +523,31 @@ fn partition_predicates_for_spec(
             {
                 predicates.push(PartitionPredicate {
                     field_index,
+                    rejects_null,
                     constraint: PartitionConstraint::Eq(value),
                 });
             }
         }
 
-        if let Some(literals) = in_filters.get(&partition_field.source_id) {
-            let mut values = Vec::new();
-            let mut seen = HashSet::new();
-            for literal in literals {
-                if let Some(value) = transform_primitive_literal(
-                    partition_field.transform,
-                    source_type,
-                    literal.clone(),
-                ) && seen.insert(value.clone())
-                {
-                    values.push(value);
-                }
-            }
-            if !values.is_empty() {
+        for (_, literals) in in_filters
+            .iter()
+            .filter(|(source_id, _)| *source_id == partition_field.source_id)
+        {
+            let values = literals
+                .iter()
+                .map(|literal| {
+                    transform_primitive_literal(
+                        partition_field.transform,
+                        source_type,
+                        literal.clone(),
+                    )
+                })
+                .collect::<Option<HashSet<_>>>();
+            if let Some(values) = values {
+                let values = values.into_iter().collect();
                 predicates.push(PartitionPredicate {
                     field_index,
+                    rejects_null,
                     constraint: PartitionConstraint::In(values),
                 });
             }
@@ -529,6 +559,7 @@ fn partition_predicates_for_spec(
         {
             predicates.push(PartitionPredicate {
                 field_index,
+                rejects_null,
                 constraint: PartitionConstraint::Range(range),
             });
         }
@@ -646,8 +677,10 @@ fn partition_predicate_may_match_value(
     predicate: &PartitionPredicate,
     value: Option<&Literal>,
 ) -> bool {
-    let Some(Literal::Primitive(value)) = value else {
-        return true;
+    let value = match value {
+        Some(Literal::Primitive(value)) => value,
+        Some(_) => return true,
+        None => return !predicate.rejects_null,
     };
     match &predicate.constraint {
         PartitionConstraint::Eq(expected) => value == expected,
@@ -710,14 +743,6 @@ fn collect_source_range_filters(
     schema: &Schema,
     filters: &[Expr],
 ) -> HashMap<i32, RangeConstraint> {
-    fn strip(expr: &Expr) -> &Expr {
-        match expr {
-            Expr::Cast(c) => strip(&c.expr),
-            Expr::Alias(a) => strip(&a.expr),
-            _ => expr,
-        }
-    }
-
     fn tighten_min(cur: &mut Option<(PrimitiveLiteral, bool)>, cand: (PrimitiveLiteral, bool)) {
         match cur {
             None => *cur = Some(cand),
@@ -751,7 +776,7 @@ fn collect_source_range_filters(
         inclusive: bool,
     ) {
         if let Some(field) = schema.field_by_name(column_name)
-            && let Ok(pl) = scalar_to_primitive_literal(literal)
+            && let Some(pl) = column_literal(field, literal)
         {
             let entry = acc.entry(field.id).or_default();
             tighten_min(&mut entry.min, (pl, inclusive));
@@ -766,7 +791,7 @@ fn collect_source_range_filters(
         inclusive: bool,
     ) {
         if let Some(field) = schema.field_by_name(column_name)
-            && let Ok(pl) = scalar_to_primitive_literal(literal)
+            && let Some(pl) = column_literal(field, literal)
         {
             let entry = acc.entry(field.id).or_default();
             tighten_max(&mut entry.max, (pl, inclusive));
@@ -775,8 +800,8 @@ fn collect_source_range_filters(
 
     fn visit_expr(acc: &mut HashMap<i32, RangeConstraint>, schema: &Schema, e: &Expr) {
         if let Expr::BinaryExpr(BinaryExpr { left, op, right }) = e {
-            let l = strip(left);
-            let r = strip(right);
+            let l = strip_alias(left);
+            let r = strip_alias(right);
             match op {
                 Operator::Gt | Operator::GtEq => {
                     if let (Expr::Column(c), Expr::Literal(sv, _)) = (l, r) {
-- 
2.43.0


From 99987b51a3da6914dee9f28e273500c0df4cdd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:49 +0000
Subject: [PATCH 28/37] fix: compare Iceberg partition values with the type of
 the partition field

---
 crates/sail-iceberg/src/datasource/pruning.rs | 52 +++++++++++++++++--
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/crates/sail-iceberg/src/datasource/pruning.rs b/crates/sail-iceberg/src/datasource/pruning.rs
index 6f1b121..a4b465b 100644
--- a/crates/sail-iceberg/src/datasource/pruning.rs
+++ b/crates/sail-iceberg/src/datasource/pruning.rs
@@ -310,6 +310,10 @@ pub fn prune_data_files_by_partition_values(
         return files;
     }
 
+    let Ok(partition_type) = partition_spec.partition_type(table_schema) else {
+        return files;
+    };
+
     files
         .into_iter()
         .filter(|file| {
@@ -317,12 +321,53 @@ pub fn prune_data_files_by_partition_values(
                 let Some(value) = file.partition().get(predicate.field_index) else {
                     return true;
                 };
-                partition_predicate_may_match_value(predicate, value.as_ref())
+                let Some(Type::Primitive(primitive_type)) = partition_type
+                    .fields()
+                    .get(predicate.field_index)
+                    .map(|field| field.field_type.as_ref())
+                else {
+                    return true;
+                };
+                match value {
+                    Some(Literal::Primitive(literal)) => {
+                        let Some(literal) = decoded_partition_literal(literal, primitive_type)
+                        else {
+                            return true;
+                        };
+                        partition_predicate_may_match_value(
+                            predicate,
+                            Some(&Literal::Primitive(literal)),
+                        )
+                    }
+                    value => partition_predicate_may_match_value(predicate, value.as_ref()),
+                }
             })
         })
         .collect()
 }
 
+/// Restores the type of a partition value, since the deserialization of manifests chooses
+/// the narrowest type that accepts a number.
+/// Returns `None` if the exact value is not known.
+fn decoded_partition_literal(
+    literal: &PrimitiveLiteral,
+    primitive_type: &PrimitiveType,
+) -> Option<PrimitiveLiteral> {
+    match (primitive_type, literal) {
+        (
+            PrimitiveType::Long
+            | PrimitiveType::Time
+            | PrimitiveType::Timestamp
+            | PrimitiveType::Timestamptz
+            | PrimitiveType::TimestampNs
+            | PrimitiveType::TimestamptzNs,
+            PrimitiveLiteral::Int(value),
+        ) => Some(PrimitiveLiteral::Long(i64::from(*value))),
+        (PrimitiveType::Double, PrimitiveLiteral::Float(_)) => None,
+        _ => Some(literal.clone()),
+    }
+}
+
 /// Load a manifest and prune entries by partition+metrics
 pub fn prune_manifest_entries(
     manifest: &Manifest,
@@ -366,10 +411,7 @@ fn has_exact_partition_values(field: &NestedField) -> bool {
     matches!(
         field.field_type.as_ref(),
         Type::Primitive(
-            PrimitiveType::Int
-                | PrimitiveType::Long
-                | PrimitiveType::String
-                | PrimitiveType::Date
+            PrimitiveType::Int | PrimitiveType::Long | PrimitiveType::String | PrimitiveType::Date
         )
     )
 }
-- 
2.43.0


From 3caa4224b938c341ea7729102ca9074f8533157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:57 +0000
Subject: [PATCH 29/37] fix: build maps from the visible part of sliced key and
 value lists

---
 crates/sail-function/src/scalar/map/utils.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/crates/sail-function/src/scalar/map/utils.rs b/crates/sail-function/src/scalar/map/utils.rs
index 51f7acf..38d8e9b 100644
--- a/crates/sail-function/src/scalar/map/utils.rs
+++ b/crates/sail-function/src/scalar/map/utils.rs
@@ -2,11 +2,9 @@ use std::borrow::Cow;
 use std::collections::HashMap;
 use std::sync::Arc;
 
-use datafusion::arrow::array::{
-    Array, ArrayRef, AsArray, BooleanBuilder, Int32Array, MapArray, StructArray,
-};
+use datafusion::arrow::array::{Array, ArrayRef, AsArray, Int32Array, MapArray, StructArray};
 use datafusion::arrow::buffer::{NullBuffer, OffsetBuffer};
-use datafusion::arrow::compute::{filter, take};
+use datafusion::arrow::compute::take;
 use datafusion::arrow::datatypes::{DataType, Field, Fields};
 use datafusion_common::{Result, ScalarValue, exec_err, internal_err};
 use sail_common::spec::{SAIL_MAP_FIELD_NAME, SAIL_MAP_KEY_FIELD_NAME, SAIL_MAP_VALUE_FIELD_NAME};
@@ -164,7 +162,8 @@ fn map_deduplicate_keys(
     let mut new_last_offset = 0;
     new_offsets.push(new_last_offset);
 
-    let mut keys_mask_builder = BooleanBuilder::new();
+    // Offsets are relative to the flat arrays, which may hold entries of rows outside these offsets.
+    let mut key_indices = Vec::new();
     let mut value_indices = Vec::new();
     let mut key_to_output_index: HashMap<ScalarValue, usize> = HashMap::new();
     for (row_idx, (next_keys_offset, next_values_offset)) in keys_offsets
@@ -194,27 +193,23 @@ fn map_deduplicate_keys(
                 if let Some(&output_index) = key_to_output_index.get(&key) {
                     if last_value_wins {
                         value_indices[output_index] = value_index;
-                        keys_mask_builder.append_value(false);
                         continue;
                     }
                     return exec_err!(
                         "[DUPLICATED_MAP_KEY] Duplicate map key {key} was found. To allow duplicate keys, set `spark.sql.mapKeyDedupPolicy` to `LAST_WIN`."
                     );
                 }
-                keys_mask_builder.append_value(true);
+                key_indices.push((cur_keys_offset + entry_index) as i32);
                 key_to_output_index.insert(key, value_indices.len());
                 value_indices.push(value_index);
                 new_last_offset += 1;
             }
-        } else {
-            keys_mask_builder.append_n(num_keys_entries, false);
         }
         new_offsets.push(new_last_offset);
         cur_keys_offset += num_keys_entries;
         cur_values_offset += num_values_entries;
     }
-    let keys_mask = keys_mask_builder.finish();
-    let needed_keys = filter(flat_keys, &keys_mask)?;
+    let needed_keys = take(flat_keys, &Int32Array::from(key_indices), None)?;
     let needed_values = take(flat_values, &Int32Array::from(value_indices), None)?;
     let offsets = OffsetBuffer::new(new_offsets.into());
     Ok((needed_keys, needed_values, offsets))
-- 
2.43.0


From 035ed1419c8ae23add8bdb9065ce4bbfaa13402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:57 +0000
Subject: [PATCH 30/37] fix: array_compact on sliced lists

---
 .../src/scalar/array/spark_array_compact.rs         | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/sail-function/src/scalar/array/spark_array_compact.rs b/crates/sail-function/src/scalar/array/spark_array_compact.rs
index 54a490e..4bb21f5 100644
--- a/crates/sail-function/src/scalar/array/spark_array_compact.rs
+++ b/crates/sail-function/src/scalar/array/spark_array_compact.rs
@@ -83,9 +83,14 @@ fn array_compact_inner(args: &[ArrayRef]) -> Result<ArrayRef> {
 }
 
 fn array_compact_generic<O: OffsetSizeTrait>(list: &GenericListArray<O>) -> Result<ArrayRef> {
-    let values = list.values();
-    let values_nulls = values.logical_nulls();
     let offsets = list.offsets();
+    // The list may be a slice of a larger array, so the values before the first
+    // and after the last offset do not belong to any row.
+    let first = offsets[0].as_usize();
+    let values = list
+        .values()
+        .slice(first, offsets[list.len()].as_usize() - first);
+    let values_nulls = values.logical_nulls();
 
     // Build a boolean filter mask for the flattened values array.
     // We keep a value if its parent row is not null AND the value itself is not null.
@@ -96,8 +101,8 @@ fn array_compact_generic<O: OffsetSizeTrait>(list: &GenericListArray<O>) -> Resu
     let mut total_kept: usize = 0;
 
     for i in 0..list.len() {
-        let start = offsets[i].as_usize();
-        let end = offsets[i + 1].as_usize();
+        let start = offsets[i].as_usize() - first;
+        let end = offsets[i + 1].as_usize() - first;
 
         if list.is_null(i) {
             // Null row: mark all values in the range as not kept.
-- 
2.43.0


From 2ffb120d57a6b2235765e2980f2ae6ad64b7c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:57 +0000
Subject: [PATCH 31/37] fix: try_avg keeps its count state non-null

---
 crates/sail-function/src/aggregate/try_avg.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/sail-function/src/aggregate/try_avg.rs b/crates/sail-function/src/aggregate/try_avg.rs
index c1c910a..e49494c 100644
--- a/crates/sail-function/src/aggregate/try_avg.rs
+++ b/crates/sail-function/src/aggregate/try_avg.rs
@@ -319,11 +319,7 @@ impl Accumulator for TryAvgAccumulator {
             } else {
                 sum_scalar
             },
-            if self.failed {
-                ScalarValue::Int64(None)
-            } else {
-                ScalarValue::Int64(Some(self.count))
-            },
+            ScalarValue::Int64(Some(self.count)),
             ScalarValue::Boolean(Some(self.failed)),
         ])
     }
-- 
2.43.0


From 15c7770591cac990c9fc88d6d749a0c09f89b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:58 +0000
Subject: [PATCH 32/37] fix: encode json_object_keys in distributed plans

---
 crates/sail-execution/src/proto/codec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/sail-execution/src/proto/codec.rs b/crates/sail-execution/src/proto/codec.rs
index 4c6d164..53519fc 100644
--- a/crates/sail-execution/src/proto/codec.rs
+++ b/crates/sail-execution/src/proto/codec.rs
@@ -3144,6 +3144,7 @@ impl PhysicalExtensionCodec for RemoteExecutionCodec {
             || node.name() == "json_as_text"
             || node.name() == "json_len"
             || node.name() == "json_length"
+            || node.name() == "json_object_keys"
         {
             UdfKind::Standard(r#gen::StandardUdf {})
         } else if let Some(func) = node_inner.downcast_ref::<SparkMapFromArrays>() {
-- 
2.43.0


From 0166ba7e5c398fa61f85a39058ea29bba7510178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:58 +0000
Subject: [PATCH 33/37] fix: keep stage output until all task regions that
 consume it have succeeded

---
 .../src/driver/job_scheduler/core.rs          | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/crates/sail-execution/src/driver/job_scheduler/core.rs b/crates/sail-execution/src/driver/job_scheduler/core.rs
index ecb324e..7f3e3c2 100644
--- a/crates/sail-execution/src/driver/job_scheduler/core.rs
+++ b/crates/sail-execution/src/driver/job_scheduler/core.rs
@@ -337,18 +337,21 @@ impl JobScheduler {
             if matches!(job.stages[s].state, StageState::Inactive) {
                 continue;
             }
-            let all_consumers_succeeded = stage.consumers.iter().all(|&c| {
-                let partitions = job.graph.stages()[c]
-                    .plan
-                    .output_partitioning()
-                    .partition_count();
-                (0..partitions).all(|p| {
-                    job.stages[c].tasks[p]
-                        .attempts
-                        .last()
-                        .is_some_and(|a| matches!(a.state, TaskState::Succeeded))
-                })
-            });
+            // The tasks in a region are rerun together, so the output of this stage is needed
+            // until all the regions that contain the consumers have succeeded.
+            let all_consumers_succeeded = job
+                .topology
+                .regions
+                .iter()
+                .filter(|r| r.tasks.iter().any(|t| stage.consumers.contains(&t.stage)))
+                .all(|r| {
+                    r.tasks.iter().all(|t| {
+                        job.stages[t.stage].tasks[t.partition]
+                            .attempts
+                            .last()
+                            .is_some_and(|a| matches!(a.state, TaskState::Succeeded))
+                    })
+                });
 
             if all_consumers_succeeded && !stage.consumers.is_empty() {
                 job.stages[s].state = StageState::Inactive;
-- 
2.43.0


From c8aa114d70fc346e1e4bda6fcfde29125893d031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:58 +0000
Subject: [PATCH 34/37] fix: all partitions that consume a broadcast shuffle
 wait for its merge stage

---
 crates/sail-execution/src/job_graph/planner.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/sail-execution/src/job_graph/planner.rs b/crates/sail-execution/src/job_graph/planner.rs
index 8f0bbf3..b61eb1f 100644
--- a/crates/sail-execution/src/job_graph/planner.rs
+++ b/crates/sail-execution/src/job_graph/planner.rs
@@ -891,7 +891,14 @@ fn create_shuffle_input(
         TaskPlacement::Worker,
         OutputMode::Blocking,
     )?;
-    Ok(stage_input_exec(stage, InputMode::Forward, properties))
+    // Every partition of the consumer reads the merged data in broadcast mode, so every partition of
+    // the consumer must wait for the merge stage. In forward mode, a partition of the consumer
+    // would wait for the same partition of the merge stage only.
+    let mode = match mode {
+        InputMode::Broadcast => InputMode::Broadcast,
+        _ => InputMode::Forward,
+    };
+    Ok(stage_input_exec(stage, mode, properties))
 }
 
 fn rewrite_inputs(
-- 
2.43.0


From b9e5a9bddbf702be5d09562367d443eb35b52e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:58 +0000
Subject: [PATCH 35/37] fix: job output with several attempts of a task neither
 hangs nor repeats rows

---
 crates/sail-execution/src/driver/output.rs | 83 +++++++++++++++-------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/crates/sail-execution/src/driver/output.rs b/crates/sail-execution/src/driver/output.rs
index 2df2be0..42afb19 100644
--- a/crates/sail-execution/src/driver/output.rs
+++ b/crates/sail-execution/src/driver/output.rs
@@ -1,4 +1,7 @@
+use std::collections::HashMap;
 use std::pin::Pin;
+use std::sync::Arc;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::task::{Context, Poll};
 use std::{fmt, mem};
 
@@ -65,6 +68,15 @@ impl JobOutputItem {
 
 struct JobOutputStream {
     state: JobOutputState,
+    /// The latest attempt for each stage, partition, and channel.
+    /// This also covers the streams that have ended.
+    outputs: HashMap<(usize, usize, usize), JobOutputAttempt>,
+}
+
+struct JobOutputAttempt {
+    attempt: usize,
+    /// The number of rows that have been read from the stream of the attempt.
+    count: Arc<AtomicUsize>,
 }
 
 impl JobOutputStream {
@@ -74,6 +86,7 @@ impl JobOutputStream {
                 receiver,
                 inner: Box::pin(SelectAll::new()),
             },
+            outputs: HashMap::new(),
         }
     }
 }
@@ -146,14 +159,22 @@ impl Stream for JobOutputStream {
     type Item = Result<RecordBatch>;
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        let state = mem::replace(&mut self.state, JobOutputState::Modifying);
-        match state {
-            JobOutputState::Active {
+        // Receive all the available items, so that the task is woken up when the next item arrives
+        // even if none of the existing streams makes progress.
+        loop {
+            let state = mem::replace(&mut self.state, JobOutputState::Modifying);
+            let JobOutputState::Active {
                 mut receiver,
                 mut inner,
-            } => match receiver.poll_recv(cx) {
+            } = state
+            else {
+                self.state = state;
+                break;
+            };
+            match receiver.poll_recv(cx) {
                 Poll::Pending => {
                     self.state = JobOutputState::Active { receiver, inner };
+                    break;
                 }
                 Poll::Ready(Some(JobOutputItem::Error { cause })) => {
                     self.state = JobOutputState::Failed;
@@ -162,7 +183,14 @@ impl Stream for JobOutputStream {
                     )))));
                 }
                 Poll::Ready(Some(JobOutputItem::Stream { key, stream })) => {
-                    if inner.iter().any(|s| s.conflicts_with(&key)) {
+                    let latest = self.outputs.get(&(key.stage, key.partition, key.channel));
+                    if latest.is_some_and(|x| x.attempt > key.attempt) {
+                        // The streams are fetched concurrently,
+                        // so they may not arrive in the order of the attempts.
+                        self.state = JobOutputState::Active { receiver, inner };
+                        continue;
+                    }
+                    if latest.is_some_and(|x| x.count.load(Ordering::Relaxed) > 0) {
                         self.state = JobOutputState::Failed;
                         return Poll::Ready(Some(Err(DataFusionError::External(Box::new(
                             TaskStreamError::Unknown(format!(
@@ -171,16 +199,25 @@ impl Stream for JobOutputStream {
                             )),
                         )))));
                     }
-                    inner.iter_mut().for_each(|s| s.mute_if_needed(&key));
-                    inner.push(TaskStreamWrapper::new(key, stream));
+                    // The streams of earlier attempts are removed altogether. A stream that is pending
+                    // is not polled again unless it is woken up, so ending it in place may leave it
+                    // in the collection and the job output would never end.
+                    let streams = mem::take(inner.as_mut().get_mut());
+                    inner.extend(streams.into_iter().filter(|s| !s.is_superseded_by(&key)));
+                    let count = Arc::new(AtomicUsize::new(0));
+                    self.outputs.insert(
+                        (key.stage, key.partition, key.channel),
+                        JobOutputAttempt {
+                            attempt: key.attempt,
+                            count: Arc::clone(&count),
+                        },
+                    );
+                    inner.push(TaskStreamWrapper::new(key, stream, count));
                     self.state = JobOutputState::Active { receiver, inner };
                 }
                 Poll::Ready(None) => {
                     self.state = JobOutputState::Draining { inner };
                 }
-            },
-            _ => {
-                self.state = state;
             }
         }
         match &mut self.state {
@@ -216,34 +253,23 @@ impl Stream for JobOutputStream {
 struct TaskStreamWrapper {
     key: TaskStreamKey,
     inner: Option<TaskStreamSource>,
-    count: usize,
+    count: Arc<AtomicUsize>,
 }
 
 impl TaskStreamWrapper {
-    fn new(key: TaskStreamKey, inner: TaskStreamSource) -> Self {
+    fn new(key: TaskStreamKey, inner: TaskStreamSource, count: Arc<AtomicUsize>) -> Self {
         Self {
             key,
             inner: Some(inner),
-            count: 0,
+            count,
         }
     }
 
-    fn conflicts_with(&self, key: &TaskStreamKey) -> bool {
+    fn is_superseded_by(&self, key: &TaskStreamKey) -> bool {
         self.key.job_id == key.job_id
             && self.key.stage == key.stage
             && self.key.partition == key.partition
             && self.key.channel == key.channel
-            && self.count > 0
-    }
-
-    fn mute_if_needed(&mut self, key: &TaskStreamKey) {
-        if self.key.job_id == key.job_id
-            && self.key.stage == key.stage
-            && self.key.partition == key.partition
-            && self.key.channel == key.channel
-        {
-            self.inner = None;
-        }
     }
 }
 
@@ -255,8 +281,11 @@ impl Stream for TaskStreamWrapper {
             return Poll::Ready(None);
         };
         let poll = inner.as_mut().poll_next(cx);
-        if let Poll::Ready(Some(Ok(ref batch))) = poll {
-            self.count += batch.num_rows();
+        match poll {
+            Poll::Ready(Some(Ok(ref batch))) => {
+                self.count.fetch_add(batch.num_rows(), Ordering::Relaxed);
+            }
+            _ => {}
         }
         poll
     }
-- 
2.43.0


From afb8cecfc12df833d777e9fa35a87b7fa8756d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:58 +0000
Subject: [PATCH 36/37] fix: a task stream that is dropped before it is
 complete ends with an error

---
 crates/sail-execution/src/driver/output.rs    |  5 +
 .../sail-execution/src/plan/shuffle_write.rs  |  5 +-
 crates/sail-execution/src/stream/accessor.rs  |  8 ++
 crates/sail-execution/src/stream/error.rs     | 14 ++-
 .../sail-execution/src/stream/local/core.rs   | 22 ++---
 .../sail-execution/src/stream/local/memory.rs | 96 +++++++++++++++++--
 crates/sail-execution/src/stream/local/mod.rs |  5 +-
 crates/sail-execution/src/stream/writer.rs    | 11 +++
 8 files changed, 136 insertions(+), 30 deletions(-)

diff --git a/crates/sail-execution/src/driver/output.rs b/crates/sail-execution/src/driver/output.rs
index 42afb19..d011e5c 100644
--- a/crates/sail-execution/src/driver/output.rs
+++ b/crates/sail-execution/src/driver/output.rs
@@ -285,6 +285,11 @@ impl Stream for TaskStreamWrapper {
             Poll::Ready(Some(Ok(ref batch))) => {
                 self.count.fetch_add(batch.num_rows(), Ordering::Relaxed);
             }
+            Poll::Ready(Some(Err(TaskStreamError::Aborted(_)))) => {
+                // The control plane either starts a new attempt or fails the job.
+                self.inner = None;
+                return Poll::Ready(None);
+            }
             _ => {}
         }
         poll
diff --git a/crates/sail-execution/src/plan/shuffle_write.rs b/crates/sail-execution/src/plan/shuffle_write.rs
index e2fc001..dbddfb6 100644
--- a/crates/sail-execution/src/plan/shuffle_write.rs
+++ b/crates/sail-execution/src/plan/shuffle_write.rs
@@ -14,7 +14,9 @@ use datafusion::physical_plan::{
     DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
 };
 use futures::StreamExt;
+use sail_common_datafusion::error::CommonErrorCause;
 use sail_physical_plan::repartition::RowRoundRobinPartitioner;
+use sail_python_udf::error::PyErrExtractor;
 
 use crate::stream::writer::{TaskStreamWriteState, TaskStreamWriter};
 
@@ -249,7 +251,8 @@ async fn shuffle_write(
             sink.abort().await
         }
         Err(error) => {
-            let _ = sink.abort().await;
+            let cause = CommonErrorCause::new::<PyErrExtractor>(&error);
+            let _ = sink.fail(cause).await;
             Err(error)
         }
     }
diff --git a/crates/sail-execution/src/stream/accessor.rs b/crates/sail-execution/src/stream/accessor.rs
index be43e42..ebc0cb8 100644
--- a/crates/sail-execution/src/stream/accessor.rs
+++ b/crates/sail-execution/src/stream/accessor.rs
@@ -7,6 +7,7 @@ use datafusion::common::{DataFusionError, Result};
 use datafusion::execution::TaskContext;
 use futures::future::try_join_all;
 use sail_common::actor::ActorHandle;
+use sail_common_datafusion::error::CommonErrorCause;
 use tokio::sync::oneshot;
 
 use crate::error::ExecutionResult;
@@ -500,4 +501,11 @@ impl TaskStreamSink for MultiChannelTaskStreamSink {
         }
         Ok(())
     }
+
+    async fn fail(self: Box<Self>, cause: CommonErrorCause) -> Result<()> {
+        for sink in self.sinks.into_iter().flatten() {
+            sink.fail(cause.clone()).await?;
+        }
+        Ok(())
+    }
 }
diff --git a/crates/sail-execution/src/stream/error.rs b/crates/sail-execution/src/stream/error.rs
index f911e98..44b7815 100644
--- a/crates/sail-execution/src/stream/error.rs
+++ b/crates/sail-execution/src/stream/error.rs
@@ -15,6 +15,8 @@ pub type TaskStreamResult<T> = Result<T, TaskStreamError>;
 pub enum TaskStreamError {
     Unknown(String),
     External(Arc<dyn std::error::Error + Send + Sync + 'static>),
+    /// The task that writes the stream has not succeeded.
+    Aborted(RemoteError),
 }
 
 impl fmt::Display for TaskStreamError {
@@ -22,6 +24,7 @@ impl fmt::Display for TaskStreamError {
         match self {
             TaskStreamError::Unknown(x) => write!(f, "{x}"),
             TaskStreamError::External(e) => write!(f, "{e}"),
+            TaskStreamError::Aborted(e) => write!(f, "{e}"),
         }
     }
 }
@@ -31,6 +34,7 @@ impl std::error::Error for TaskStreamError {
         match self {
             TaskStreamError::Unknown(_) => None,
             TaskStreamError::External(e) => Some(e.as_ref()),
+            TaskStreamError::Aborted(e) => Some(e),
         }
     }
 }
@@ -47,7 +51,11 @@ impl From<Status> for TaskStreamError {
                 )
                 && let Ok(cause) = serde_json::from_str::<CommonErrorCause>(cause)
             {
-                return cause.into();
+                return if info.metadata.contains_key("aborted") {
+                    Self::Aborted(RemoteError { cause })
+                } else {
+                    cause.into()
+                };
             }
         }
         Self::Unknown(status.message().to_string())
@@ -57,6 +65,9 @@ impl From<Status> for TaskStreamError {
 impl From<TaskStreamError> for Status {
     fn from(error: TaskStreamError) -> Self {
         let mut metadata = HashMap::new();
+        if matches!(error, TaskStreamError::Aborted(_)) {
+            metadata.insert("aborted".into(), "true".into());
+        }
         if let Ok(cause) = serde_json::to_string(&CommonErrorCause::from(error)) {
             metadata.insert("cause".into(), cause);
         }
@@ -92,6 +103,7 @@ impl From<TaskStreamError> for CommonErrorCause {
         match value {
             TaskStreamError::Unknown(x) => CommonErrorCause::Unknown(x),
             TaskStreamError::External(e) => CommonErrorCause::new::<PyErrExtractor>(e.as_ref()),
+            TaskStreamError::Aborted(e) => e.cause,
         }
     }
 }
diff --git a/crates/sail-execution/src/stream/local/core.rs b/crates/sail-execution/src/stream/local/core.rs
index fbfb2ea..5aa86a5 100644
--- a/crates/sail-execution/src/stream/local/core.rs
+++ b/crates/sail-execution/src/stream/local/core.rs
@@ -1,18 +1,15 @@
 use std::collections::HashMap;
 use std::collections::hash_map::Entry;
 
-use datafusion::arrow::array::RecordBatch;
 use datafusion::arrow::datatypes::SchemaRef;
 use sail_common::actor::ActorContext;
 use sail_common_datafusion::error::CommonErrorCause;
 use sail_python_udf::error::PyErrExtractor;
-use tokio::sync::mpsc;
-use tonic::codegen::tokio_stream::wrappers::ReceiverStream;
 
 use crate::error::{ExecutionError, ExecutionResult};
 use crate::id::{JobId, TaskStreamKey, TaskStreamKeyDisplay};
-use crate::stream::error::{TaskStreamError, TaskStreamResult};
-use crate::stream::local::memory::MemoryStream;
+use crate::stream::error::TaskStreamError;
+use crate::stream::local::memory::{MemoryStream, MemoryStreamSender, memory_stream_channel};
 use crate::stream::local::options::LocalStreamManagerOptions;
 use crate::stream::local::{LocalStreamManager, LocalStreamState};
 use crate::stream::reader::TaskStreamSource;
@@ -93,10 +90,10 @@ impl LocalStreamManager {
             Entry::Occupied(mut entry) => match entry.get_mut() {
                 LocalStreamState::Created { stream } => stream.subscribe(),
                 LocalStreamState::Pending { senders } => {
-                    let (tx, rx) = mpsc::channel(self.options.task_stream_buffer);
+                    let (tx, rx) = memory_stream_channel(self.options.task_stream_buffer);
                     senders.push(tx);
                     // There is no need to probe the pending stream again.
-                    Ok(Box::pin(ReceiverStream::new(rx)))
+                    Ok(rx.into_source())
                 }
                 LocalStreamState::Failed { cause } => Err(ExecutionError::InternalError(format!(
                     "local stream creation has failed for {}: {}",
@@ -105,13 +102,13 @@ impl LocalStreamManager {
                 ))),
             },
             Entry::Vacant(entry) => {
-                let (tx, rx) = mpsc::channel(self.options.task_stream_buffer);
+                let (tx, rx) = memory_stream_channel(self.options.task_stream_buffer);
                 entry.insert(LocalStreamState::Pending { senders: vec![tx] });
                 ctx.send_with_delay(
                     TaskRunnerMessage::ProbePendingLocalStream { key: key.clone() },
                     self.options.task_stream_creation_timeout,
                 );
-                Ok(Box::pin(ReceiverStream::new(rx)))
+                Ok(rx.into_source())
             }
         }
     }
@@ -137,10 +134,7 @@ impl LocalStreamManager {
         }
     }
 
-    pub fn fail_senders(
-        senders: &[mpsc::Sender<TaskStreamResult<RecordBatch>>],
-        cause: &CommonErrorCause,
-    ) {
+    pub fn fail_senders(senders: &[MemoryStreamSender], cause: &CommonErrorCause) {
         for tx in senders {
             // `try_send` would not fail due to full buffer because we have
             // never sent any data to the channel.
@@ -151,7 +145,7 @@ impl LocalStreamManager {
 
     fn create_stream_with_senders(
         replicas: usize,
-        senders: Vec<mpsc::Sender<TaskStreamResult<RecordBatch>>>,
+        senders: Vec<MemoryStreamSender>,
         options: &LocalStreamManagerOptions,
     ) -> MemoryStream {
         MemoryStream::new(options.task_stream_buffer, replicas, senders)
diff --git a/crates/sail-execution/src/stream/local/memory.rs b/crates/sail-execution/src/stream/local/memory.rs
index 87cd84d..8ff116a 100644
--- a/crates/sail-execution/src/stream/local/memory.rs
+++ b/crates/sail-execution/src/stream/local/memory.rs
@@ -1,38 +1,100 @@
 use std::collections::VecDeque;
+use std::ops::Deref;
+use std::sync::{Arc, OnceLock};
 
 use datafusion::arrow::array::RecordBatch;
 use datafusion::common::Result;
+use futures::StreamExt;
 use log::debug;
+use sail_common_datafusion::error::{CommonErrorCause, RemoteError};
 use tokio::sync::mpsc;
 use tonic::codegen::tokio_stream::wrappers::ReceiverStream;
 
 use crate::error::{ExecutionError, ExecutionResult};
-use crate::stream::error::TaskStreamResult;
+use crate::stream::error::{TaskStreamError, TaskStreamResult};
 use crate::stream::reader::TaskStreamSource;
 use crate::stream::writer::{TaskStreamChannelSink, TaskStreamWriteState};
 
+type MemoryStreamOutcome = std::result::Result<(), CommonErrorCause>;
+
+/// The sender of one replica of the stream.
+#[derive(Clone)]
+pub(crate) struct MemoryStreamSender {
+    sender: mpsc::Sender<TaskStreamResult<RecordBatch>>,
+    outcome: Arc<OnceLock<MemoryStreamOutcome>>,
+}
+
+impl MemoryStreamSender {
+    /// Sets the outcome of the stream, which must happen before the sender is dropped.
+    fn finish(&self, outcome: MemoryStreamOutcome) {
+        let _ = self.outcome.set(outcome);
+    }
+}
+
+impl Deref for MemoryStreamSender {
+    type Target = mpsc::Sender<TaskStreamResult<RecordBatch>>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.sender
+    }
+}
+
+/// The receiver of one replica of the stream.
+pub(crate) struct MemoryStreamReceiver {
+    receiver: mpsc::Receiver<TaskStreamResult<RecordBatch>>,
+    outcome: Arc<OnceLock<MemoryStreamOutcome>>,
+}
+
+impl MemoryStreamReceiver {
+    /// Converts the receiver to a stream, which ends with an error if the writer is dropped
+    /// without committing the stream, so that the reader does not mistake a part of the data
+    /// for all of it.
+    pub(crate) fn into_source(self) -> TaskStreamSource {
+        let Self { receiver, outcome } = self;
+        let end = futures::stream::once(async move {
+            let cause = match outcome.get() {
+                Some(Ok(())) => return None,
+                Some(Err(cause)) => cause.clone(),
+                None => CommonErrorCause::Execution(
+                    "task stream ended before the task succeeded".to_string(),
+                ),
+            };
+            Some(Err(TaskStreamError::Aborted(RemoteError { cause })))
+        });
+        Box::pin(ReceiverStream::new(receiver).chain(end.filter_map(futures::future::ready)))
+    }
+}
+
+pub(crate) fn memory_stream_channel(buffer: usize) -> (MemoryStreamSender, MemoryStreamReceiver) {
+    let (sender, receiver) = mpsc::channel(buffer);
+    let outcome = Arc::new(OnceLock::new());
+    (
+        MemoryStreamSender {
+            sender,
+            outcome: Arc::clone(&outcome),
+        },
+        MemoryStreamReceiver { receiver, outcome },
+    )
+}
+
 /// A memory stream that can be read multiple times.
 /// It maintains multiple replicas of the stream internally.
 /// Since [`Arc`] is used inside the record batch, it is relatively cheap
 /// to clone the data in multiple replicas.
 pub(crate) struct MemoryStream {
     sender: Option<MemoryStreamReplicaSender>,
-    receivers: Vec<mpsc::Receiver<TaskStreamResult<RecordBatch>>>,
+    receivers: Vec<MemoryStreamReceiver>,
 }
 
 impl MemoryStream {
-    pub fn new(
-        buffer: usize,
-        replicas: usize,
-        senders: Vec<mpsc::Sender<TaskStreamResult<RecordBatch>>>,
-    ) -> Self {
+    pub fn new(buffer: usize, replicas: usize, senders: Vec<MemoryStreamSender>) -> Self {
         let replicas = replicas.max(senders.len());
         let diff = replicas - senders.len();
         let mut senders = senders.into_iter().map(Some).collect::<Vec<_>>();
         senders.reserve(diff);
         let mut receivers = Vec::with_capacity(diff);
         for _ in 0..diff {
-            let (tx, rx) = mpsc::channel(buffer);
+            let (tx, rx) = memory_stream_channel(buffer);
             senders.push(Some(tx));
             receivers.push(rx);
         }
@@ -54,12 +116,12 @@ impl MemoryStream {
         let rx = self.receivers.pop().ok_or_else(|| {
             ExecutionError::InternalError("memory stream has exhausted all replica(s)".to_string())
         })?;
-        Ok(Box::pin(ReceiverStream::new(rx)))
+        Ok(rx.into_source())
     }
 }
 
 struct MemoryStreamReplicaSender {
-    senders: Vec<Option<mpsc::Sender<TaskStreamResult<RecordBatch>>>>,
+    senders: Vec<Option<MemoryStreamSender>>,
     /// An overflow buffer for each sender to avoid blocking sending for slow senders.
     /// This also avoids deadlock situations where the task stream buffer size is small.
     // TODO: More investigation is needed to understand why deadlocks might happen among stages
@@ -67,6 +129,14 @@ struct MemoryStreamReplicaSender {
     overflow: Vec<VecDeque<TaskStreamResult<RecordBatch>>>,
 }
 
+impl MemoryStreamReplicaSender {
+    fn finish(&self, outcome: MemoryStreamOutcome) {
+        for sender in self.senders.iter().flatten() {
+            sender.finish(outcome.clone());
+        }
+    }
+}
+
 #[tonic::async_trait]
 impl TaskStreamChannelSink for MemoryStreamReplicaSender {
     async fn write(&mut self, batch: RecordBatch) -> Result<TaskStreamWriteState> {
@@ -161,10 +231,16 @@ impl TaskStreamChannelSink for MemoryStreamReplicaSender {
                 overflow.clear();
             }
         }
+        self.finish(Ok(()));
         Ok(())
     }
 
     async fn abort(self: Box<Self>) -> Result<()> {
         Ok(())
     }
+
+    async fn fail(self: Box<Self>, cause: CommonErrorCause) -> Result<()> {
+        self.finish(Err(cause));
+        Ok(())
+    }
 }
diff --git a/crates/sail-execution/src/stream/local/mod.rs b/crates/sail-execution/src/stream/local/mod.rs
index 29a1d6c..890d24f 100644
--- a/crates/sail-execution/src/stream/local/mod.rs
+++ b/crates/sail-execution/src/stream/local/mod.rs
@@ -4,13 +4,10 @@ mod options;
 
 use std::collections::HashMap;
 
-use datafusion::arrow::array::RecordBatch;
 pub use options::LocalStreamManagerOptions;
 use sail_common_datafusion::error::CommonErrorCause;
-use tokio::sync::mpsc;
 
 use crate::id::TaskStreamKey;
-use crate::stream::error::TaskStreamResult;
 
 pub struct LocalStreamManager {
     options: LocalStreamManagerOptions,
@@ -19,7 +16,7 @@ pub struct LocalStreamManager {
 
 pub enum LocalStreamState {
     Pending {
-        senders: Vec<mpsc::Sender<TaskStreamResult<RecordBatch>>>,
+        senders: Vec<memory::MemoryStreamSender>,
     },
     Created {
         stream: memory::MemoryStream,
diff --git a/crates/sail-execution/src/stream/writer.rs b/crates/sail-execution/src/stream/writer.rs
index 0d654da..35b3a76 100644
--- a/crates/sail-execution/src/stream/writer.rs
+++ b/crates/sail-execution/src/stream/writer.rs
@@ -2,6 +2,7 @@ use std::fmt;
 
 use datafusion::arrow::array::RecordBatch;
 use datafusion::common::Result;
+use sail_common_datafusion::error::CommonErrorCause;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum TaskStreamWriteState {
@@ -20,6 +21,11 @@ pub trait TaskStreamSink: Send {
     async fn write(&mut self, channel: usize, batch: RecordBatch) -> Result<TaskStreamWriteState>;
     async fn commit(self: Box<Self>) -> Result<()>;
     async fn abort(self: Box<Self>) -> Result<()>;
+    /// Aborts the stream because the task has failed.
+    /// The cause is reported to the readers that may have received a part of the stream.
+    async fn fail(self: Box<Self>, _cause: CommonErrorCause) -> Result<()> {
+        self.abort().await
+    }
 }
 
 /// A physical sink for exactly one channel of the task stream.
@@ -28,4 +34,9 @@ pub trait TaskStreamChannelSink: Send {
     async fn write(&mut self, batch: RecordBatch) -> Result<TaskStreamWriteState>;
     async fn commit(self: Box<Self>) -> Result<()>;
     async fn abort(self: Box<Self>) -> Result<()>;
+    /// Aborts the stream because the task has failed.
+    /// The cause is reported to the readers that may have received a part of the stream.
+    async fn fail(self: Box<Self>, _cause: CommonErrorCause) -> Result<()> {
+        self.abort().await
+    }
 }
-- 
2.43.0


From 77e0657b4719f3b010692fe0855c87ba0056a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:58 +0000
Subject: [PATCH 37/37] fix: an Iceberg commit does not fail after its metadata
 file has been created

---
 .../src/physical_plan/commit/commit_exec.rs            | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs b/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
index e3f7fbd..0a619a6 100644
--- a/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
+++ b/crates/sail-iceberg/src/physical_plan/commit/commit_exec.rs
@@ -1185,7 +1185,15 @@ impl ExecutionPlan for IcebergCommitExec {
                         return Err(DataFusionError::External(Box::new(error)));
                     }
                 }
-                let version_files = metadata_files_for_version(&store_ctx, next_version).await?;
+                // The metadata is committed even if the directory cannot be listed.
+                let version_files = metadata_files_for_version(&store_ctx, next_version)
+                    .await
+                    .unwrap_or_else(|error| {
+                        log::warn!(
+                            "Failed to detect concurrent metadata writes for version {next_version}: {error}"
+                        );
+                        vec![]
+                    });
                 let conflict_after_write = version_files.iter().any(|path| path != &metadata_file);
                 if conflict_after_write {
                     log::warn!(
-- 
2.43.0


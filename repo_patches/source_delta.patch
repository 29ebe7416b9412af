From 101ce5bec301a5d0f131c9033cc064631fbd51ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 01/56] fix: build against the sqlparser 0.62 that Cargo.toml
 and Cargo.lock pin

---
 src/sql/execution/expression_parser.rs | 22 +++++++++++----
 src/sql/planner/plan_builder.rs        | 37 +++++++++++++++++++++++---
 src/sql/planner/query_planner.rs       |  2 ++
 3 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/sql/execution/expression_parser.rs b/src/sql/execution/expression_parser.rs
index a5fef37..b6328f5 100644
--- a/src/sql/execution/expression_parser.rs
+++ b/src/sql/execution/expression_parser.rs
@@ -933,7 +933,7 @@ impl ExpressionParser {
                 let parsed_pattern = Arc::new(self.parse_expression(pattern, schema)?);
 
                 // Convert Option<Value> to Option<String>
-                let escape_string = escape_char.as_ref().and_then(|val| match val {
+                let escape_string = escape_char.as_ref().and_then(|val| match &val.value {
                     sqlparser::ast::Value::SingleQuotedString(s) => Some(s.clone()),
                     sqlparser::ast::Value::DoubleQuotedString(s) => Some(s.clone()),
                     sqlparser::ast::Value::EscapedStringLiteral(s) => Some(s.clone()),
@@ -1107,7 +1107,7 @@ impl ExpressionParser {
                     }),
                     CeilFloorKind::Scale(scale_expr) => {
                         let scale_expr = Expr::Value(ValueWithSpan {
-                            value: scale_expr.clone(),
+                            value: scale_expr.value.clone(),
                             span: Span {
                                 start: Location::new(0, 0),
                                 end: Location::new(0, 0),
@@ -1172,7 +1172,7 @@ impl ExpressionParser {
                     }),
                     CeilFloorKind::Scale(scale_expr) => {
                         let scale_expr = Expr::Value(ValueWithSpan {
-                            value: scale_expr.clone(),
+                            value: scale_expr.value.clone(),
                             span: Span {
                                 start: Location::new(0, 0),
                                 end: Location::new(0, 0),
@@ -1529,7 +1529,7 @@ impl ExpressionParser {
                 pattern,
                 escape_char,
             } => {
-                let escape_char = escape_char.as_ref().and_then(|val| match val {
+                let escape_char = escape_char.as_ref().and_then(|val| match &val.value {
                     sqlparser::ast::Value::SingleQuotedString(s) => s.chars().next(),
                     sqlparser::ast::Value::DoubleQuotedString(s) => s.chars().next(),
                     sqlparser::ast::Value::EscapedStringLiteral(s) => s.chars().next(),
@@ -1552,7 +1552,7 @@ impl ExpressionParser {
                 pattern,
                 escape_char,
             } => {
-                let escape_char = escape_char.as_ref().and_then(|val| match val {
+                let escape_char = escape_char.as_ref().and_then(|val| match &val.value {
                     sqlparser::ast::Value::SingleQuotedString(s) => s.chars().next(),
                     sqlparser::ast::Value::DoubleQuotedString(s) => s.chars().next(),
                     sqlparser::ast::Value::EscapedStringLiteral(s) => s.chars().next(),
@@ -2310,6 +2310,9 @@ impl ExpressionParser {
             SelectItem::Wildcard(_) | SelectItem::QualifiedWildcard(_, _) => {
                 Err("Wildcards are not supported in subqueries".to_string())
             },
+            SelectItem::ExprWithAliases { .. } => {
+                Err("Multiple column aliases are not supported in subqueries".to_string())
+            },
         }
     }
 
@@ -2460,6 +2463,11 @@ impl ExpressionParser {
                 ));
                 Ok((predicate, join_operator.clone()))
             },
+            JoinOperator::ArrayJoin
+            | JoinOperator::LeftArrayJoin
+            | JoinOperator::InnerArrayJoin => {
+                Err("ARRAY joins are not yet supported".to_string())
+            },
             JoinOperator::AsOf {
                 match_condition,
                 constraint,
@@ -3552,6 +3560,9 @@ impl ExpressionParser {
                                     // Allow wildcard for COUNT(*), it will be handled specially in parse_function
                                     continue;
                                 },
+                                FunctionArgExpr::WildcardWithOptions(_) => {
+                                    return Err("Wildcard options in function arguments not yet supported".to_string());
+                                },
                             }
                         },
                         FunctionArg::ExprNamed {
@@ -4076,6 +4087,7 @@ impl ExpressionParser {
         match table {
             TableObject::TableName(obj_name) => self.extract_table_name(obj_name),
             TableObject::TableFunction(_) => Err("Table functions are not supported".to_string()),
+            TableObject::TableQuery(_) => Err("Table subqueries are not supported".to_string()),
         }
     }
 
diff --git a/src/sql/planner/plan_builder.rs b/src/sql/planner/plan_builder.rs
index cf55866..9ac4bdc 100644
--- a/src/sql/planner/plan_builder.rs
+++ b/src/sql/planner/plan_builder.rs
@@ -304,8 +304,9 @@ impl LogicalPlanBuilder {
             },
             SetExpr::Query(nested_query) => self.build_query_plan(nested_query)?,
             SetExpr::Values(values) => {
-                let schema = self.schema_manager.create_values_schema(&values.rows)?;
-                self.build_values_plan(&values.rows, &schema)?
+                let rows = Self::values_rows(values);
+                let schema = self.schema_manager.create_values_schema(&rows)?;
+                self.build_values_plan(&rows, &schema)?
             },
             SetExpr::Update(update_stmt) => match update_stmt {
                 Statement::Update(update) => self.build_update_plan(
@@ -557,6 +558,9 @@ impl LogicalPlanBuilder {
                         agg_exprs.push(Arc::new(parsed_expr));
                     }
                 },
+                SelectItem::ExprWithAliases { .. } => {
+                    return Err("Multiple column aliases are not supported".to_string());
+                },
                 SelectItem::Wildcard(_) | SelectItem::QualifiedWildcard(_, _) => {
                     // We'll check for wildcards after determining if there are aggregates
                     // No action needed here
@@ -875,6 +879,9 @@ impl LogicalPlanBuilder {
                         }
                     }
                 },
+                SelectItem::ExprWithAliases { .. } => {
+                    return Err("Multiple column aliases are not supported".to_string());
+                },
                 SelectItem::Wildcard(_) | SelectItem::QualifiedWildcard(_, _) => {
                     // This should have been caught earlier, but just in case
                     return Err("Wildcard projections are not supported with GROUP BY".to_string());
@@ -1110,6 +1117,9 @@ impl LogicalPlanBuilder {
                         projection_exprs.push(Arc::new(parsed_expr));
                     }
                 },
+                SelectItem::ExprWithAliases { .. } => {
+                    return Err("Multiple column aliases are not supported".to_string());
+                },
                 SelectItem::Wildcard(_) | SelectItem::QualifiedWildcard(_, _) => {
                     debug!("Processing wildcard");
                     for i in 0..input_schema.get_column_count() {
@@ -1579,6 +1589,11 @@ impl LogicalPlanBuilder {
                 JoinOperator::AsOf { .. } => {
                     return Err("AS OF joins are not yet supported".to_string());
                 },
+                JoinOperator::ArrayJoin
+                | JoinOperator::LeftArrayJoin
+                | JoinOperator::InnerArrayJoin => {
+                    return Err("ARRAY joins are not yet supported".to_string());
+                },
             };
 
             current_plan = Box::new(LogicalPlan::new(
@@ -1819,6 +1834,7 @@ impl LogicalPlanBuilder {
         let transaction_kind = match transaction {
             Some(BeginTransactionKind::Transaction) => "TRANSACTION",
             Some(BeginTransactionKind::Work) => "WORK",
+            Some(BeginTransactionKind::Tran) => "TRAN",
             None => "",
         };
 
@@ -2407,6 +2423,9 @@ impl LogicalPlanBuilder {
                                 SelectItem::ExprWithAlias { expr, alias } => {
                                     proj_str.push(format!("{} AS {}", expr, alias.value));
                                 },
+                                SelectItem::ExprWithAliases { expr, .. } => {
+                                    proj_str.push(expr.to_string());
+                                },
                                 SelectItem::Wildcard(_) => proj_str.push("*".to_string()),
                                 SelectItem::QualifiedWildcard(_, _) => {
                                     proj_str.push("table.*".to_string())
@@ -3085,6 +3104,9 @@ impl LogicalPlanBuilder {
             TableObject::TableFunction(_) => {
                 return Err("Table functions are not supported in INSERT statements".to_string());
             },
+            TableObject::TableQuery(_) => {
+                return Err("Table subqueries are not supported in INSERT".to_string());
+            },
         };
 
         // Get table info from catalog
@@ -3102,7 +3124,7 @@ impl LogicalPlanBuilder {
             // If explicit columns are specified, create a schema with only those columns
             let mut columns = Vec::new();
             for column_ident in &insert.columns {
-                let column_name = column_ident.value.clone();
+                let column_name = self.expression_parser.extract_table_name(column_ident)?;
                 let column_index = full_schema.get_column_index(&column_name).ok_or_else(|| {
                     format!(
                         "Column '{}' does not exist in table '{}'",
@@ -3123,7 +3145,9 @@ impl LogicalPlanBuilder {
         // Plan the source (VALUES or SELECT)
         let source_plan = match &insert.source {
             Some(query) => match &*query.body {
-                SetExpr::Values(values) => self.build_values_plan(&values.rows, &values_schema)?,
+                SetExpr::Values(values) => {
+                    self.build_values_plan(&Self::values_rows(values), &values_schema)?
+                },
                 SetExpr::Select(select) => {
                     let select_plan = self.build_select_plan(select)?;
                     if !self
@@ -3272,6 +3296,11 @@ impl LogicalPlanBuilder {
         ))
     }
 
+    /// Returns the rows of a VALUES list without their parentheses.
+    fn values_rows(values: &Values) -> Vec<Vec<Expr>> {
+        values.rows.iter().map(|row| row.content.clone()).collect()
+    }
+
     /// Builds a logical plan for inline VALUES.
     ///
     /// Converts literal row data into a VALUES plan node.
diff --git a/src/sql/planner/query_planner.rs b/src/sql/planner/query_planner.rs
index f6bfa4b..21026aa 100644
--- a/src/sql/planner/query_planner.rs
+++ b/src/sql/planner/query_planner.rs
@@ -437,6 +437,8 @@ impl QueryPlanner {
                 catalog_sync_namespace_flatten_delimiter: _catalog_sync_namespace_flatten_delimiter,
                 with_tags: _with_tags,
                 with_contacts: _with_contacts,
+                default_charset: _default_charset,
+                default_collation: _default_collation,
             } => self.plan_builder.build_create_database_plan(
                 db_name,
                 if_not_exists,
-- 
2.43.0


From fef04873a4489cd83f706f029cb341e75cb6aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 02/56] fix: do aligned page I/O when direct I/O is enabled, so
 O_DIRECT writes no longer fail

---
 src/storage/disk/async_disk/io/executor.rs | 29 ++++++++++++----------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/storage/disk/async_disk/io/executor.rs b/src/storage/disk/async_disk/io/executor.rs
index 5dd217d..52700a8 100644
--- a/src/storage/disk/async_disk/io/executor.rs
+++ b/src/storage/disk/async_disk/io/executor.rs
@@ -291,10 +291,11 @@ use std::sync::Arc;
 use tokio::fs::File;
 use tokio::io::{AsyncReadExt, AsyncSeekExt, AsyncWriteExt};
 use tokio::sync::Mutex;
+use tokio::task::spawn_blocking;
 
 use super::operations::IOOperationType;
 use crate::common::config::{DB_PAGE_SIZE, PageId};
-use crate::storage::disk::direct_io::{AlignedBuffer, DirectIOConfig};
+use crate::storage::disk::direct_io::{DirectIOConfig, read_aligned, write_aligned};
 
 /// I/O operation executor responsible for executing operations
 ///
@@ -422,10 +423,14 @@ impl IOOperationExecutor {
         file.seek(std::io::SeekFrom::Start(offset)).await?;
 
         if self.db_direct_io_config.enabled {
-            // Use aligned buffer for direct I/O
-            let mut aligned_buf = AlignedBuffer::new(size, self.db_direct_io_config.alignment);
-            file.read_exact(aligned_buf.as_mut_slice()).await?;
-            Ok(aligned_buf.to_vec())
+            // tokio's File copies through an unaligned internal buffer, which O_DIRECT
+            // rejects, so the aligned I/O is done on the underlying std file.
+            let mut std_file = file.try_clone().await?.into_std().await;
+            let config = self.db_direct_io_config.clone();
+            let buffer =
+                spawn_blocking(move || read_aligned(&mut std_file, offset, size, &config))
+                    .await??;
+            Ok(buffer[..size].to_vec())
         } else {
             // Use standard buffer for buffered I/O
             let mut buffer = vec![0u8; size];
@@ -478,14 +483,12 @@ impl IOOperationExecutor {
         file.seek(std::io::SeekFrom::Start(offset)).await?;
 
         if self.db_direct_io_config.enabled {
-            // Use aligned buffer for direct I/O
-            // DB_PAGE_SIZE (4096) is already aligned, but we ensure the buffer is aligned
-            let aligned_buf = AlignedBuffer::from_slice_with_size(
-                data,
-                DB_PAGE_SIZE as usize,
-                self.db_direct_io_config.alignment,
-            );
-            file.write_all(aligned_buf.as_slice()).await?;
+            // tokio's File copies through an unaligned internal buffer, which O_DIRECT
+            // rejects, so the aligned I/O is done on the underlying std file.
+            let mut std_file = file.try_clone().await?.into_std().await;
+            let config = self.db_direct_io_config.clone();
+            let data = data.to_vec();
+            spawn_blocking(move || write_aligned(&mut std_file, offset, &data, &config)).await??;
         } else {
             // Use standard write for buffered I/O
             file.write_all(data).await?;
-- 
2.43.0


From 5d6806bbb37f4483a9e20bb52d47a651e9cd11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 03/56] fix: a heap LFU cache of capacity zero must not store
 entries

---
 src/storage/disk/async_disk/cache/heap_lfu.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/storage/disk/async_disk/cache/heap_lfu.rs b/src/storage/disk/async_disk/cache/heap_lfu.rs
index c621f22..e97eb47 100644
--- a/src/storage/disk/async_disk/cache/heap_lfu.rs
+++ b/src/storage/disk/async_disk/cache/heap_lfu.rs
@@ -375,6 +375,11 @@ where
             return Some(std::mem::replace(old_value, value));
         }
 
+        // A cache without capacity holds nothing
+        if self.capacity == 0 {
+            return None;
+        }
+
         // Ensure we have capacity (may evict LFU item)
         self.ensure_capacity();
 
-- 
2.43.0


From 6eae3256f5aadedd4147ab1d519430b325b19dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 04/56] fix: extendible hash splits and merges must not lose
 entries or live pages

---
 src/container/disk_extendable_hash_table.rs            |  8 ++++----
 .../page_types/extendable_hash_table_directory_page.rs | 10 ++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/container/disk_extendable_hash_table.rs b/src/container/disk_extendable_hash_table.rs
index 1e2e4ea..827d46e 100644
--- a/src/container/disk_extendable_hash_table.rs
+++ b/src/container/disk_extendable_hash_table.rs
@@ -541,6 +541,8 @@ impl DiskExtendableHashTable {
         if removed {
             let is_empty = bucket_page.read().is_empty();
             if is_empty {
+                // the emptied page can only be deleted once nobody holds it
+                drop(bucket_page);
                 self.merge_bucket(directory_index, bucket_index);
             }
         }
@@ -680,13 +682,11 @@ impl DiskExtendableHashTable {
 
                 // Redistribute entries based on the new local depth
                 let new_local_depth = directory.get_local_depth(bucket_index as u32);
-                let mask = (1 << new_local_depth) - 1;
+                let distinguishing_bit = 1 << (new_local_depth - 1);
 
                 for (key, value) in entries {
                     let hash = self.hash_fn.get_hash(&key) as u32;
-                    let target_bucket_index = hash & mask;
-
-                    if target_bucket_index == bucket_index as u32 {
+                    if hash & distinguishing_bit == 0 {
                         old_bucket.insert(key, value);
                     } else {
                         new_bucket.insert(key, value);
diff --git a/src/storage/page/page_types/extendable_hash_table_directory_page.rs b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
index 7988c4c..88a907e 100644
--- a/src/storage/page/page_types/extendable_hash_table_directory_page.rs
+++ b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
@@ -631,17 +631,19 @@ impl ExtendableHTableDirectoryPage {
 
         let buddy_page_id = self.get_bucket_page_id(buddy_bucket_index)?;
 
-        // Update all entries pointing to this bucket to point to buddy
-        let mask = (1 << local_depth) - 1;
+        let removed_page_id = self.get_bucket_page_id(bucket_index)?;
+
+        // Point every entry of either bucket to the buddy, one level up
+        let mask = (1 << (local_depth - 1)) - 1;
         for i in 0..(1 << self.get_global_depth()) {
-            if (i & mask) == bucket_index {
+            if (i & mask) == (bucket_index & mask) {
                 self.set_bucket_page_id(i, buddy_page_id);
                 self.set_local_depth(i, local_depth - 1);
             }
         }
 
         // Return the page ID of the bucket being removed
-        self.get_bucket_page_id(bucket_index)
+        Some(removed_page_id)
     }
 
     // Helper method to find the correct bucket index for a given page ID
-- 
2.43.0


From ee5a53a038301c51421370f35c08f9efe9fbca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:56 +0000
Subject: [PATCH 05/56] fix: disk reads, batch reads and large flushes must not
 wait on a scheduler nobody drains

With work_stealing_enabled (the default) AsyncDiskManager submitted cache
misses, multi-page batch reads and large forced flushes to a
WorkStealingScheduler that has no workers, so these calls never returned.
The I/O engine has its own priority queue and workers; use it directly.
---
 src/storage/disk/async_disk/manager.rs | 202 +------------------------
 1 file changed, 7 insertions(+), 195 deletions(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 6d9ed74..4ca5fe5 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -244,7 +244,7 @@ use std::time::{Duration, Instant};
 
 use log::{debug, error, info, trace, warn};
 use tokio::fs::File;
-use tokio::sync::{Mutex, RwLock, oneshot};
+use tokio::sync::{Mutex, RwLock};
 use tokio::task::JoinHandle;
 
 use super::config::DiskManagerConfig;
@@ -264,7 +264,6 @@ use crate::storage::disk::async_disk::metrics::dashboard::{
 };
 use crate::storage::disk::async_disk::metrics::prediction::TrendData;
 use crate::storage::disk::async_disk::metrics::snapshot::MetricsSnapshot;
-use crate::storage::disk::async_disk::scheduler::{IOTask, IOTaskType, WorkStealingScheduler};
 
 /// Asynchronous Disk Manager that provides high-performance I/O operations
 /// with advanced features like caching, compression, and metrics collection.
@@ -278,9 +277,6 @@ pub struct AsyncDiskManager {
     // Configuration
     config: DiskManagerConfig,
 
-    // Optimization components
-    scheduler: Arc<WorkStealingScheduler>,
-
     // Metrics and monitoring
     metrics_collector: Arc<MetricsCollector>,
 
@@ -384,20 +380,12 @@ impl AsyncDiskManager {
         debug!("Initializing WriteManager");
         let write_manager = Arc::new(WriteManager::new(&config));
 
-        // Create scheduler
-        debug!(
-            "Initializing WorkStealingScheduler with {} threads",
-            config.io_threads
-        );
-        let scheduler = Arc::new(WorkStealingScheduler::new(config.io_threads));
-
         // Create AsyncDiskManager
         let manager = Self {
             io_engine,
             write_manager,
             cache_manager,
             config,
-            scheduler,
             metrics_collector,
             is_shutting_down: Arc::new(AtomicBool::new(false)),
             background_tasks: Mutex::new(Vec::new()),
@@ -418,7 +406,7 @@ impl AsyncDiskManager {
             .await
     }
 
-    /// Reads a page with specified priority using scheduler
+    /// Reads a page with specified priority
     pub async fn read_page_with_priority(
         &self,
         page_id: PageId,
@@ -452,72 +440,9 @@ impl AsyncDiskManager {
             page_id, priority
         );
 
-        // Use scheduler if work-stealing is enabled
-        if self.config.work_stealing_enabled {
-            self.schedule_read_operation(page_id, priority, start_time)
-                .await
-        } else {
-            // Direct read without scheduling
-            self.direct_read_operation(page_id, start_time).await
-        }
-    }
-
-    /// Schedules a read operation through the work-stealing scheduler
-    async fn schedule_read_operation(
-        &self,
-        page_id: PageId,
-        priority: IOPriority,
-        start_time: Instant,
-    ) -> IoResult<Vec<u8>> {
-        let (sender, receiver) = oneshot::channel();
-
-        let task = IOTask {
-            task_type: IOTaskType::Read(page_id),
-            priority,
-            creation_time: start_time,
-            completion_callback: Some(sender),
-        };
-
-        debug!("Submitting read task for page {} to scheduler", page_id);
-        if let Err(e) = self.scheduler.submit_task(task).await {
-            error!("Failed to submit read task for page {}: {:?}", page_id, e);
-            return Err(std::io::Error::other(format!(
-                "Failed to submit read task: {:?}",
-                e
-            )));
-        }
-
-        // Wait for completion
-        match receiver.await {
-            Ok(Ok(data)) => {
-                let elapsed = start_time.elapsed();
-                debug!(
-                    "Scheduled read completed for page {} (size: {} bytes, elapsed: {:?})",
-                    page_id,
-                    data.len(),
-                    elapsed
-                );
-                let elapsed_ns = elapsed.as_nanos() as u64;
-                self.metrics_collector
-                    .record_read(elapsed_ns, data.len() as u64, false);
-
-                // Store in cache for future reads if caching is enabled
-                if self.config.cache_size_mb > 0 {
-                    trace!("Storing page {} in cache", page_id);
-                    self.cache_manager.store_page(page_id, data.clone());
-                }
-
-                Ok(data)
-            },
-            Ok(Err(e)) => {
-                error!("Scheduled read failed for page {}: {}", page_id, e);
-                Err(e)
-            },
-            Err(_) => {
-                error!("Read task was cancelled for page {}", page_id);
-                Err(std::io::Error::other("Read task was cancelled"))
-            },
-        }
+        // The I/O engine has its own priority queue and workers. No worker drains the
+        // work-stealing scheduler, so a task submitted there would never complete.
+        self.direct_read_operation(page_id, start_time).await
     }
 
     /// Performs a direct read operation without scheduling
@@ -683,46 +608,6 @@ impl AsyncDiskManager {
         Ok(())
     }
 
-    /// Schedules a batch write operation through the scheduler
-    async fn schedule_batch_write_operation(&self, pages: Vec<(PageId, Vec<u8>)>) -> IoResult<()> {
-        let (sender, receiver) = oneshot::channel();
-
-        let task = IOTask {
-            task_type: IOTaskType::BatchWrite(pages.clone()),
-            priority: IOPriority::High, // Flush operations are high priority
-            creation_time: Instant::now(),
-            completion_callback: Some(sender),
-        };
-
-        debug!(
-            "Submitting batch write task for {} pages to scheduler",
-            pages.len()
-        );
-        if let Err(e) = self.scheduler.submit_task(task).await {
-            error!("Failed to submit batch write task: {:?}", e);
-            return Err(std::io::Error::other(format!(
-                "Failed to submit batch write task: {:?}",
-                e
-            )));
-        }
-
-        // Wait for completion
-        match receiver.await {
-            Ok(Ok(_)) => {
-                debug!("Scheduled batch write completed for {} pages", pages.len());
-                Ok(())
-            },
-            Ok(Err(e)) => {
-                error!("Scheduled batch write failed: {}", e);
-                Err(e)
-            },
-            Err(_) => {
-                error!("Batch write task was cancelled");
-                Err(std::io::Error::other("Batch write task was cancelled"))
-            },
-        }
-    }
-
     /// Writes multiple pages to disk
     async fn write_pages_to_disk(&self, pages: Vec<(PageId, Vec<u8>)>) -> IoResult<()> {
         debug!("Writing {} pages to disk", pages.len());
@@ -770,11 +655,7 @@ impl AsyncDiskManager {
         let mut total_bytes = 0;
 
         for chunk in page_ids.chunks(batch_size) {
-            let chunk_results = if self.config.work_stealing_enabled && chunk.len() > 1 {
-                self.schedule_batch_read_operation(chunk.to_vec()).await?
-            } else {
-                self.direct_batch_read_operation(chunk.to_vec()).await?
-            };
+            let chunk_results = self.direct_batch_read_operation(chunk.to_vec()).await?;
 
             // Calculate total bytes for metrics
             for data in &chunk_results {
@@ -798,70 +679,6 @@ impl AsyncDiskManager {
         Ok(results)
     }
 
-    /// Schedules a batch read operation through the scheduler
-    async fn schedule_batch_read_operation(&self, page_ids: Vec<PageId>) -> IoResult<Vec<Vec<u8>>> {
-        let start_time = Instant::now();
-        let (sender, receiver) = oneshot::channel();
-
-        let task = IOTask {
-            task_type: IOTaskType::BatchRead(page_ids.clone()),
-            priority: IOPriority::Normal,
-            creation_time: start_time,
-            completion_callback: Some(sender),
-        };
-
-        debug!(
-            "Submitting batch read task for {} pages to scheduler",
-            page_ids.len()
-        );
-        if let Err(e) = self.scheduler.submit_task(task).await {
-            error!("Failed to submit batch read task: {:?}", e);
-            return Err(std::io::Error::other(format!(
-                "Failed to submit batch read task: {:?}",
-                e
-            )));
-        }
-
-        // Wait for completion
-        match receiver.await {
-            Ok(Ok(data)) => {
-                debug!(
-                    "Scheduled batch read completed for {} pages",
-                    page_ids.len()
-                );
-
-                // Parse the combined data back into individual pages
-                // This is a simplified approach - in practice, you'd need proper serialization
-                let chunk_size = data.len() / page_ids.len();
-                let mut results = Vec::new();
-                for i in 0..page_ids.len() {
-                    let start = i * chunk_size;
-                    let end = if i == page_ids.len() - 1 {
-                        data.len()
-                    } else {
-                        start + chunk_size
-                    };
-                    results.push(data[start..end].to_vec());
-                }
-
-                // Record individual metrics for this chunk
-                let elapsed = start_time.elapsed();
-                let elapsed_ns = elapsed.as_nanos() as u64;
-                self.update_batch_read_metrics(results.len(), data.len() as u64, elapsed_ns);
-
-                Ok(results)
-            },
-            Ok(Err(e)) => {
-                error!("Scheduled batch read failed: {}", e);
-                Err(e)
-            },
-            Err(_) => {
-                error!("Batch read task was cancelled");
-                Err(std::io::Error::other("Batch read task was cancelled"))
-            },
-        }
-    }
-
     /// Performs direct batch read operation without scheduling
     async fn direct_batch_read_operation(&self, page_ids: Vec<PageId>) -> IoResult<Vec<Vec<u8>>> {
         let start_time = Instant::now();
@@ -1050,12 +867,7 @@ impl AsyncDiskManager {
         if !pages.is_empty() {
             debug!("Force flushing {} pages to disk", pages.len());
 
-            // Use scheduler for large batches if work-stealing is enabled
-            if self.config.work_stealing_enabled && pages.len() > self.config.batch_size {
-                self.schedule_batch_write_operation(pages).await?;
-            } else {
-                self.write_pages_to_disk(pages).await?;
-            }
+            self.write_pages_to_disk(pages).await?;
         }
 
         // Force sync regardless of policy
-- 
2.43.0


From 4158c62c95bcb8cae6e769b233a2e0be09bb7684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:16 +0000
Subject: [PATCH 06/56] fix: staged page writes must not be lost when the
 buffer is full, nor hidden from reads

WriteManager::buffer_write dropped the page when the staging buffer rejected
it: the older pages were drained, the new one was neither buffered nor
written. And a read that missed the cache went to the file although a newer
version was still staged.
---
 src/storage/disk/async_disk/manager.rs           |  6 +++++-
 .../disk/async_disk/memory/write_manager.rs      | 16 ++++++++++++++--
 .../async_disk/memory/write_staging_buffer.rs    |  8 ++++++++
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 4ca5fe5..ba43e93 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -451,7 +451,11 @@ impl AsyncDiskManager {
         page_id: PageId,
         start_time: Instant,
     ) -> IoResult<Vec<u8>> {
-        let data = self.io_engine.read().await.read_page(page_id).await?;
+        // A write that is still in the staging buffer is newer than what is on disk
+        let data = match self.write_manager.get_buffered_page(page_id).await {
+            Some(data) => data,
+            None => self.io_engine.read().await.read_page(page_id).await?,
+        };
 
         // Update metrics
         let elapsed = start_time.elapsed();
diff --git a/src/storage/disk/async_disk/memory/write_manager.rs b/src/storage/disk/async_disk/memory/write_manager.rs
index 4761017..14cc92a 100644
--- a/src/storage/disk/async_disk/memory/write_manager.rs
+++ b/src/storage/disk/async_disk/memory/write_manager.rs
@@ -316,6 +316,7 @@ impl WriteManager {
         );
 
         // Step 2: Add to buffer manager with compression
+        let mut rejected = None;
         let needs_flush = {
             let mut buffer = self.buffer_manager.lock().await;
             let stats_before = buffer.get_stats();
@@ -325,7 +326,7 @@ impl WriteManager {
                 stats_before.buffer_size_bytes
             );
 
-            let buffer_accepted = buffer.buffer_write(page_id, coalesced_data)?;
+            let buffer_accepted = buffer.buffer_write(page_id, coalesced_data.clone())?;
 
             let stats_after = buffer.get_stats();
             log::debug!(
@@ -337,6 +338,7 @@ impl WriteManager {
 
             if !buffer_accepted {
                 log::debug!("WriteManager::buffer_write buffer full, needs flush");
+                rejected = Some(coalesced_data);
                 true // Buffer is full, needs flush
             } else {
                 // Check if we should flush based on coordinator's decisions
@@ -362,11 +364,16 @@ impl WriteManager {
         // Step 3: Coordinate flush if needed
         let flushed_pages = if needs_flush {
             log::debug!("WriteManager::buffer_write triggering flush");
-            let pages = self.flush(provider).await?;
+            let mut pages = self.flush(provider).await?;
             log::debug!(
                 "WriteManager::buffer_write flush returned {} pages",
                 pages.len()
             );
+            // A full buffer did not take this page; write it out after the drained pages, which
+            // may include an older version of it.
+            if let Some(data) = rejected {
+                pages.push((page_id, data));
+            }
             if pages.is_empty() { None } else { Some(pages) }
         } else {
             None
@@ -525,6 +532,11 @@ impl WriteManager {
         !matches!(flush_decision, FlushDecision::NoFlush)
     }
 
+    /// Returns the buffered, not yet flushed version of a page, if there is one
+    pub async fn get_buffered_page(&self, page_id: PageId) -> Option<Vec<u8>> {
+        self.buffer_manager.lock().await.get_page(page_id)
+    }
+
     /// Gets comprehensive statistics from all components
     pub async fn get_buffer_stats(&self) -> WriteBufferStats {
         let buffer = self.buffer_manager.lock().await;
diff --git a/src/storage/disk/async_disk/memory/write_staging_buffer.rs b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
index bd189dc..561ec6b 100644
--- a/src/storage/disk/async_disk/memory/write_staging_buffer.rs
+++ b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
@@ -337,6 +337,14 @@ impl WriteStagingBuffer {
         pages
     }
 
+    /// Returns the buffered data of a page, if the page is in the buffer
+    pub fn get_page(&self, page_id: PageId) -> Option<Vec<u8>> {
+        self.buffer
+            .buffer
+            .get(&page_id)
+            .map(|data| self.decompress_data(data))
+    }
+
     /// Checks if the buffer is empty
     pub fn is_empty(&self) -> bool {
         self.buffer.buffer.is_empty()
-- 
2.43.0


From 8fdc6129f1052266b15c1fb8da07c8ddd4361876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:36 +0000
Subject: [PATCH 07/56] fix: a page written again must not be served from an
 older copy in another cache tier

CacheManager::store_page put the new version into the tier its temperature
selects (or nowhere, for duplicates and refused admissions) and left older
versions in the other tiers, which get_page consults first.
---
 .../disk/async_disk/cache/cache_manager.rs    | 47 +++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/storage/disk/async_disk/cache/cache_manager.rs b/src/storage/disk/async_disk/cache/cache_manager.rs
index 46699b7..9f54a1f 100644
--- a/src/storage/disk/async_disk/cache/cache_manager.rs
+++ b/src/storage/disk/async_disk/cache/cache_manager.rs
@@ -1184,6 +1184,49 @@ impl CacheManager {
         }
     }
 
+    /// Replaces the data of a page in every tier that holds it
+    fn refresh_cached_copies(&self, page_id: PageId, data: &[u8]) {
+        type Hot = LRUKCache<PageId, Arc<Vec<u8>>>;
+        type Warm = LFUCache<PageId, PageData>;
+        type Cold = FIFOCache<PageId, PageData>;
+
+        let page_data = |temperature| PageData {
+            data: Arc::new(data.to_vec()),
+            last_accessed: Instant::now(),
+            access_count: 1,
+            temperature,
+        };
+
+        let mut hot = Self::lock_tier(&self.hot_cache);
+        if <Hot as CoreCache<_, _>>::contains(&hot, &page_id) {
+            <Hot as CoreCache<_, _>>::insert(&mut hot, page_id, Arc::new(data.to_vec()));
+        }
+        drop(hot);
+
+        let mut warm = Self::lock_tier(&self.warm_cache);
+        if <Warm as CoreCache<_, _>>::contains(&warm, &page_id) {
+            let page_data = page_data(DataTemperature::Warm);
+            <Warm as CoreCache<_, _>>::insert(&mut warm, page_id, page_data);
+        }
+        drop(warm);
+
+        let mut cold = Self::lock_tier(&self.cold_cache);
+        if <Cold as CoreCache<_, _>>::contains(&cold, &page_id) {
+            let page_data = page_data(DataTemperature::Cold);
+            <Cold as CoreCache<_, _>>::insert(&mut cold, page_id, page_data);
+        }
+    }
+
+    /// Locks a tier for writing. Tiers are only ever locked for short, non-blocking sections.
+    fn lock_tier<C>(tier: &RwLock<C>) -> tokio::sync::RwLockWriteGuard<'_, C> {
+        loop {
+            if let Ok(guard) = tier.try_write() {
+                return guard;
+            }
+            std::thread::yield_now();
+        }
+    }
+
     /// Stores a page in the appropriate cache tier.
     ///
     /// The page is placed in a tier based on its temperature classification:
@@ -1223,6 +1266,10 @@ impl CacheManager {
     /// }
     /// ```
     pub fn store_page(&self, page_id: PageId, data: Vec<u8>) {
+        // Older versions held by any tier must not outlive this one, whether or not it is
+        // admitted below and whichever tier it goes to.
+        self.refresh_cached_copies(page_id, &data);
+
         // Check admission controller first
         if !self.should_admit_page(page_id, &data) {
             return;
-- 
2.43.0


From 644ea2fce41ef1d149cd79a3df2b8cfdee090d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 08/56] fix: a page load that fails must give its frame back to
 the pool

load_page_from_disk took (and evicted) a frame before reading the page and
leaked it when the read failed or the page had another type.
---
 src/buffer/buffer_pool_manager_async.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index d9da05d..0aaac78 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -620,6 +620,7 @@ impl BufferPoolManager {
             Ok(data) => data,
             Err(e) => {
                 error!("Failed to load page {} : {}", page_id, e);
+                self.free_list.write().push(frame_id);
                 return None;
             },
         };
@@ -633,6 +634,7 @@ impl BufferPoolManager {
             Some(page_guard)
         } else {
             error!("Failed to create page {} from data", page_id);
+            self.free_list.write().push(frame_id);
             None
         }
     }
-- 
2.43.0


From bffbd78668e586edb2a7b8a28b8e12a4d2201bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:02 +0000
Subject: [PATCH 09/56] fix: batch page loads must keep request order and only
 hand out pages that are in the pool

load_pages_batch returned the guards sorted by page id, loaded a page
requested twice into two frames, and returned guards for pages that had no
frame, whose changes were lost.
---
 src/buffer/buffer_pool_manager_async.rs | 56 +++++++++++--------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 0aaac78..95c97f1 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -1299,59 +1299,53 @@ impl BufferPoolManager {
         trace!("Loading {} pages in batch", page_ids.len());
 
         // Check which pages are already in memory
-        let mut in_memory_pages = Vec::new();
+        let mut guards = Vec::with_capacity(page_ids.len());
         let mut pages_to_load = Vec::new();
 
-        for page_id in page_ids {
+        for (index, page_id) in page_ids.into_iter().enumerate() {
             if let Some(page) = self.get_page_internal(page_id) {
                 // Verify type and create guard
-                if let Some(guard) = self.create_guard_from_existing::<T>(page_id, page) {
-                    in_memory_pages.push((page_id, Some(guard)));
-                } else {
-                    in_memory_pages.push((page_id, None));
-                }
+                guards.push(self.create_guard_from_existing::<T>(page_id, page));
             } else {
-                pages_to_load.push(page_id);
+                guards.push(None);
+                pages_to_load.push((index, page_id));
             }
         }
 
         // Load missing pages from disk in batch
         if !pages_to_load.is_empty() {
-            match self
-                .disk_manager
-                .read_pages_batch(pages_to_load.clone())
-                .await
-            {
+            let missing_ids = pages_to_load.iter().map(|(_, page_id)| *page_id).collect();
+            match self.disk_manager.read_pages_batch(missing_ids).await {
                 Ok(pages_data) => {
-                    for (page_id, data) in pages_to_load.into_iter().zip(pages_data) {
+                    for ((index, page_id), data) in pages_to_load.into_iter().zip(pages_data) {
+                        // A page requested twice has just been loaded for its first request
+                        if let Some(page) = self.get_page_internal(page_id) {
+                            guards[index] = self.create_guard_from_existing::<T>(page_id, page);
+                            continue;
+                        }
+
+                        // Without a frame the page cannot be loaded
+                        let Some(frame_id) = self.get_available_frame() else {
+                            continue;
+                        };
+                        self.evict_page_if_necessary(frame_id);
+
                         if let Some(guard) = self.create_page_from_data::<T>(page_id, data) {
-                            // Get frame and update metadata
-                            if let Some(frame_id) = self.get_available_frame() {
-                                self.evict_page_if_necessary(frame_id);
-                                let page_arc = guard.get_page().clone();
-                                self.update_page_metadata(frame_id, page_id, &page_arc);
-                            }
-                            in_memory_pages.push((page_id, Some(guard)));
+                            let page_arc = guard.get_page().clone();
+                            self.update_page_metadata(frame_id, page_id, &page_arc);
+                            guards[index] = Some(guard);
                         } else {
-                            in_memory_pages.push((page_id, None));
+                            self.free_list.write().push(frame_id);
                         }
                     }
                 },
                 Err(e) => {
                     error!("Failed to load pages in batch: {}", e);
-                    for page_id in pages_to_load {
-                        in_memory_pages.push((page_id, None));
-                    }
                 },
             }
         }
 
-        // Sort by original order and return
-        in_memory_pages.sort_by_key(|(page_id, _)| *page_id);
-        in_memory_pages
-            .into_iter()
-            .map(|(_, guard)| guard)
-            .collect()
+        guards
     }
 
     /// Creates a guard from an existing page in memory
-- 
2.43.0


From 24992a9bb3226c2586531da1cab13ed9f6d9b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:08 +0000
Subject: [PATCH 10/56] fix: a hash directory's leftover slots must not keep it
 from shrinking again

---
 .../page/page_types/extendable_hash_table_directory_page.rs    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/page/page_types/extendable_hash_table_directory_page.rs b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
index 88a907e..f5f22cc 100644
--- a/src/storage/page/page_types/extendable_hash_table_directory_page.rs
+++ b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
@@ -334,7 +334,8 @@ impl ExtendableHTableDirectoryPage {
     /// # Returns
     /// True if the directory can be shrunk, false otherwise.
     pub fn can_shrink(&self) -> bool {
-        for local_depth in self.local_depths {
+        // Slots past the current size are left over from before an earlier shrink.
+        for &local_depth in &self.local_depths[..self.get_size() as usize] {
             if local_depth >= self.global_depth {
                 return false;
             }
-- 
2.43.0


From c2afe83056f71a4ffbce5078db950b8756fb4290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:11 +0000
Subject: [PATCH 11/56] fix: B+ tree internal splits, merges and
 redistributions must keep every child, and emptying by optimistic remove must
 empty the tree

---
 src/storage/index/b_plus_tree_index.rs        | 229 ++++--------------
 .../page_types/b_plus_tree_internal_page.rs   |  38 +++
 2 files changed, 85 insertions(+), 182 deletions(-)

diff --git a/src/storage/index/b_plus_tree_index.rs b/src/storage/index/b_plus_tree_index.rs
index c83dffa..a34693d 100644
--- a/src/storage/index/b_plus_tree_index.rs
+++ b/src/storage/index/b_plus_tree_index.rs
@@ -1326,6 +1326,11 @@ where
                 return Ok(OptimisticResult::Success(false));
             }
 
+            // Removing the last key empties the tree, which the pessimistic path takes care of
+            if leaf.is_root() && leaf.get_size() == 1 {
+                return Ok(OptimisticResult::NeedRestart);
+            }
+
             // Remove the key
             leaf.remove_key_value_at(key_index);
         }
@@ -1514,7 +1519,6 @@ where
 
             // Determine split point - floor(max_size/2)
             let split_point = internal_max_size / 2;
-            let current_size = internal_write.get_size();
 
             // The middle key (at split_point) will be promoted to the parent
             middle_key = internal_write
@@ -1522,31 +1526,14 @@ where
                 .ok_or(BPlusTreeError::InvalidPageType)?
                 .clone();
 
-            // Get the child that will be the leftmost pointer in the new page
-            // (This is the child pointer that goes immediately after the middle key)
-            let child_after_middle = internal_write
-                .get_value_at(split_point + 1)
-                .ok_or(BPlusTreeError::InvalidPageType)?;
-
-            // First insert the leftmost child pointer in the new page
-            // For an internal page, we need to setup the first child before any keys
-            new_internal_write.insert_key_value(middle_key.clone(), child_after_middle);
-            // This added a key and two pointers, but we only wanted one pointer (leftmost)
-            // We'll overwrite with the remaining keys and values
-
-            // Now move the remaining keys and values
-            for i in (split_point + 1)..current_size {
-                if let Some(key) = internal_write.get_key_at(i)
-                    && let Some(child_id) = internal_write.get_value_at(i + 1)
-                {
-                    new_internal_write.insert_key_value(key.clone(), child_id);
-                }
-            }
-
-            // Now remove keys from original page: remove the middle key and all keys after it
-            for _ in split_point..current_size {
-                internal_write.remove_key_value_at(split_point);
-            }
+            // The right half goes to the new page, led by the child after the middle key;
+            // the middle key itself lives on only in the parent.
+            let (mut keys, mut children) = internal_write.get_entries();
+            let right_keys = keys.split_off(split_point + 1);
+            let right_children = children.split_off(split_point + 1);
+            keys.truncate(split_point);
+            new_internal_write.set_entries(right_keys, right_children);
+            internal_write.set_entries(keys, children);
         }
 
         // Now handle the parent insertion
@@ -1658,7 +1645,7 @@ where
         left_write.set_next_page_id(right_write.get_next_page_id());
 
         // 5. Remove the separator key and right child pointer from parent
-        parent_write.remove_key_value_at(parent_key_index);
+        parent_write.remove_right_child_of(parent_key_index);
 
         // 6. Handle parent's status after removal
         let is_parent_root = parent_write.is_root();
@@ -1802,10 +1789,7 @@ where
             let new_separator = right_write.get_key_at(0).cloned();
             if let Some(new_sep) = new_separator {
                 // Fix: Replace set_key_at with proper method to update a key
-                if parent_write.get_key_at(parent_key_index).is_some() {
-                    parent_write.remove_key_value_at(parent_key_index);
-                    parent_write.insert_key_value(new_sep, right_page.get_page_id());
-                }
+                parent_write.set_key_at(parent_key_index, new_sep);
             } else {
                 return Err(BPlusTreeError::BufferPoolError(
                     "Right page is unexpectedly empty after redistribution".to_string(),
@@ -1862,10 +1846,7 @@ where
             // Step 7: Update the separator key in parent to the first key in right page
             let new_separator = right_write.get_key_at(0).cloned();
             if let Some(new_sep) = new_separator {
-                if parent_write.get_key_at(parent_key_index).is_some() {
-                    parent_write.remove_key_value_at(parent_key_index);
-                    parent_write.insert_key_value(new_sep, right_page.get_page_id());
-                }
+                parent_write.set_key_at(parent_key_index, new_sep);
             } else {
                 return Err(BPlusTreeError::BufferPoolError(
                     "Right page is unexpectedly empty after redistribution".to_string(),
@@ -1923,24 +1904,22 @@ where
             ));
         }
 
-        // 3. Move the separator key from parent to the left page
-        let right_first_child = right_write.get_value_at(0).ok_or_else(|| {
-            BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-        })?;
-        left_write.insert_key_value(separator_key, right_first_child);
-
-        // 4. Copy all keys and child pointers from right page to left page
-        // Skip the first child pointer of right page as it's already handled with the separator key
-        for i in 0..right_write.get_size() {
-            if let Some(key) = right_write.get_key_at(i)
-                && let Some(child_id) = right_write.get_value_at(i + 1)
-            {
-                left_write.insert_key_value(key.clone(), child_id);
-            }
+        // 3. The separator key moves down between the two pages' keys; all of the right
+        // page's children follow the left page's.
+        let (mut keys, mut children) = left_write.get_entries();
+        let (right_keys, right_children) = right_write.get_entries();
+        if right_children.is_empty() {
+            return Err(BPlusTreeError::BufferPoolError(
+                "Right page has no children".to_string(),
+            ));
         }
+        keys.push(separator_key);
+        keys.extend(right_keys);
+        children.extend(right_children);
+        left_write.set_entries(keys, children);
 
-        // 5. Remove the separator key and right child pointer from parent
-        parent_write.remove_key_value_at(parent_key_index);
+        // 4. Remove the separator key and right child pointer from parent
+        parent_write.remove_right_child_of(parent_key_index);
 
         // 6. Handle parent's status after removal
         let is_parent_root = parent_write.is_root();
@@ -2059,138 +2038,24 @@ where
             ));
         }
 
-        // Calculate target sizes after redistribution (approximately balanced)
-        let target_size = total_entries / 2;
+        // 4. Line up all keys (with the separator between the two pages) and all children,
+        // and cut them again in the middle; the key at the cut is the new separator.
+        let (mut keys, mut children) = left_write.get_entries();
+        let (right_keys, right_children) = right_write.get_entries();
+        keys.push(separator_key);
+        keys.extend(right_keys);
+        children.extend(right_children);
 
-        // 4. Determine direction of redistribution
-        if left_size < right_size {
-            // Move entries from right to left
-            // First, get the leftmost child from right page
-            let right_first_child = right_write.get_value_at(0).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-            })?;
-
-            // Move separator key from parent to left page, with rightmost child pointer
-            left_write.insert_key_value(separator_key, right_first_child);
-
-            // Calculate how many more keys to move (excluding the first child already moved)
-            let additional_keys_to_move = target_size - left_size - 1;
-
-            // Move additional keys and children from right to left
-            for i in 0..additional_keys_to_move {
-                let key_to_move = right_write.get_key_at(i);
-                let child_id_to_move = right_write.get_value_at(i + 1);
-
-                if let (Some(key), Some(child_id)) = (key_to_move, child_id_to_move) {
-                    left_write.insert_key_value(key, child_id);
-                }
-            }
-
-            // Get the new separator key from right page
-            let new_separator = right_write
-                .get_key_at(additional_keys_to_move)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Not enough keys in right page".to_string())
-                })?
-                .clone();
-
-            // Update parent with new separator key
-            parent_write.remove_key_value_at(parent_key_index);
-            parent_write.insert_key_value(new_separator, right_page.get_page_id());
-
-            // Update right page: remove moved keys and update leftmost child
-            // We need to keep the old rightmost child of right page as its new leftmost child
-            right_write
-                .get_value_at(additional_keys_to_move + 1)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Invalid right page layout".to_string())
-                })?;
-
-            // Remove the transferred keys/values from right page
-            for _ in 0..=additional_keys_to_move {
-                right_write.remove_key_value_at(0);
-            }
-        } else {
-            // Move entries from left to right
-
-            // First, get the rightmost key and child from left page
-            let left_size = left_write.get_size();
-            let left_last_key = left_write
-                .get_key_at(left_size - 1)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Left page has no keys".to_string())
-                })?
-                .clone();
-            let left_last_child = left_write.get_value_at(left_size).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Left page has invalid child count".to_string())
-            })?;
-
-            // Calculate how many keys to move
-            let keys_to_move = left_size - target_size;
-
-            // Save right page's leftmost child
-            right_write.get_value_at(0).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-            })?;
-
-            // Shift everything in right page to make room
-            // To avoid modifying while iterating, we'll collect all keys/values first
-            let right_size = right_write.get_size();
-            let mut right_kv_pairs = Vec::with_capacity(right_size);
-
-            for i in 0..right_size {
-                let key = right_write.get_key_at(i);
-                let child_id = right_write.get_value_at(i + 1);
-
-                if let (Some(k), Some(v)) = (key, child_id) {
-                    right_kv_pairs.push((k, v));
-                }
-            }
-
-            // Clear right page except for its leftmost child pointer
-            while right_write.get_size() > 0 {
-                right_write.remove_key_value_at(0);
-            }
-
-            // Insert separator key from parent with left's rightmost child
-            right_write.insert_key_value(separator_key, left_last_child);
-
-            // Move the keys to move from left to right (except the last one that becomes the new separator)
-            let start_idx = left_size - keys_to_move;
-            let end_idx = left_size - 1; // Exclude the last key which becomes the separator
-
-            // Create a temporary vector of keys to move
-            let mut keys_to_move_vec = Vec::with_capacity(keys_to_move);
-            for i in start_idx..end_idx {
-                let key = left_write.get_key_at(i);
-                let child_id = left_write.get_value_at(i + 1);
-
-                if let (Some(k), Some(v)) = (key, child_id) {
-                    keys_to_move_vec.push((k, v));
-                }
-            }
-
-            // Insert the keys to move
-            for (key, child_id) in keys_to_move_vec {
-                right_write.insert_key_value(key, child_id);
-            }
-
-            // Put back the original keys in right page
-            for (key, child_id) in right_kv_pairs {
-                right_write.insert_key_value(key, child_id);
-            }
-
-            // Update parent with last key from left as new separator
-            parent_write.remove_key_value_at(parent_key_index);
-            parent_write.insert_key_value(left_last_key, right_page.get_page_id());
+        let left_len = (total_entries - 1) / 2;
+        let new_right_keys = keys.split_off(left_len + 1);
+        let new_right_children = children.split_off(left_len + 1);
+        let new_separator = keys.pop().ok_or_else(|| {
+            BPlusTreeError::BufferPoolError("Not enough keys for redistribution".to_string())
+        })?;
 
-            // Remove transferred keys from left page
-            // Store current size to avoid borrowing issues
-            let current_left_size = left_write.get_size();
-            for i in 0..keys_to_move {
-                left_write.remove_key_value_at(current_left_size - 1 - i);
-            }
-        }
+        left_write.set_entries(keys, children);
+        right_write.set_entries(new_right_keys, new_right_children);
+        parent_write.set_key_at(parent_key_index, new_separator);
 
         // The locks will be released when the write guards are dropped
         Ok(())
@@ -2695,7 +2560,7 @@ where
             let max_size = current_page.read().get_max_size();
 
             // Determine if merge or redistribution is needed
-            if total_entries <= max_size {
+            if total_entries < max_size {
                 // Merge the pages - ensure left page is always first argument
                 if sibling_is_left {
                     self.merge_internal_pages(
diff --git a/src/storage/page/page_types/b_plus_tree_internal_page.rs b/src/storage/page/page_types/b_plus_tree_internal_page.rs
index 0be5c61..621dcb9 100644
--- a/src/storage/page/page_types/b_plus_tree_internal_page.rs
+++ b/src/storage/page/page_types/b_plus_tree_internal_page.rs
@@ -661,6 +661,44 @@ impl<
         self.check_invariants().is_ok()
     }
 
+    /// All keys and child pointers of this node, in order.
+    pub fn get_entries(&self) -> (Vec<KeyType>, Vec<PageId>) {
+        (self.keys.clone(), self.values.clone())
+    }
+
+    /// Replaces the contents of this node; there must be one more child than keys.
+    pub fn set_entries(&mut self, keys: Vec<KeyType>, values: Vec<PageId>) {
+        debug_assert_eq!(keys.len() + 1, values.len());
+        self.size = keys.len();
+        self.keys = keys;
+        self.values = values;
+        self.is_dirty = true;
+    }
+
+    /// Replaces the separator key at `index`, leaving the child pointers alone.
+    pub fn set_key_at(&mut self, index: usize, key: KeyType) -> bool {
+        if index >= self.keys.len() {
+            return false;
+        }
+        self.keys[index] = key;
+        self.is_dirty = true;
+        true
+    }
+
+    /// Removes the separator key at `index` together with the child to its right. Unlike
+    /// [`remove_key_value_at`](Self::remove_key_value_at), the leftmost child always stays,
+    /// so that a node left without keys can still be merged with a sibling.
+    pub fn remove_right_child_of(&mut self, index: usize) -> bool {
+        if index >= self.keys.len() || index + 1 >= self.values.len() {
+            return false;
+        }
+        self.keys.remove(index);
+        self.values.remove(index + 1);
+        self.size = self.keys.len();
+        self.is_dirty = true;
+        true
+    }
+
     /// Populate a new root node with two children
     /// Used when a child node splits and a new root needs to be created
     ///
-- 
2.43.0


From 1e207b1b18de853493efb024885542a4b6c7275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:53 +0000
Subject: [PATCH 12/56] fix: the lock manager must not hang on release, lose or
 over-grant locks, or wait on stale edges

---
 src/concurrency/lock_manager.rs | 535 ++++++++++++++++++--------------
 1 file changed, 306 insertions(+), 229 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 3b0d102..6d87cf6 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -189,6 +189,23 @@ pub enum LockMode {
     SharedIntentionExclusive,
 }
 
+impl LockMode {
+    /// Whether a transaction that holds locks in all of `held` needs nothing more for this mode.
+    fn is_covered_by(self, held: &[LockMode]) -> bool {
+        use LockMode::*;
+        let holds = |modes: &[LockMode]| held.iter().any(|m| modes.contains(m));
+        match self {
+            IntentionShared => !held.is_empty(),
+            IntentionExclusive => holds(&[IntentionExclusive, SharedIntentionExclusive, Exclusive]),
+            Shared => holds(&[Shared, SharedIntentionExclusive, Exclusive]),
+            SharedIntentionExclusive => {
+                Shared.is_covered_by(held) && IntentionExclusive.is_covered_by(held)
+            },
+            Exclusive => holds(&[Exclusive]),
+        }
+    }
+}
+
 /// A single lock request for a table or row resource.
 ///
 /// For table lock requests, `rid` is `None`. For row lock requests,
@@ -225,12 +242,16 @@ pub struct LockRequestQueue {
 ///
 /// Used for efficient lock release during transaction commit/abort
 /// and for enforcing multi-level locking protocol constraints.
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, Default)]
 struct TxnLockState {
     /// Set of table OIDs this transaction holds locks on.
     table_locks: HashSet<TableOidT>,
     /// Set of (table OID, row RID) pairs this transaction holds locks on.
     row_locks: HashSet<(TableOidT, RID)>,
+    /// Set of table OIDs this transaction may have a waiting request for.
+    waiting_tables: HashSet<TableOidT>,
+    /// Set of row RIDs this transaction may have a waiting request for.
+    waiting_rows: HashSet<RID>,
 }
 
 /// Detects deadlocks using a waits-for graph with background cycle detection.
@@ -379,114 +400,141 @@ impl LockRequestQueue {
         }
     }
 
-    /// Checks if a new lock request is compatible with existing granted locks.
-    pub fn compatible_with_existing_locks(&self, request: &LockRequest) -> bool {
-        let txn_id = request.get_txn_id();
-        let new_mode = request.get_lock_mode();
-
-        // If there's an upgrading transaction, no other locks can be granted
+    /// The transactions that stand in the way of granting `mode` to `txn_id`.
+    fn blockers(&self, txn_id: TxnId, mode: LockMode) -> Vec<TxnId> {
+        let mut blockers = Vec::new();
+        // An upgrade that is waiting goes first
         if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
-            return false;
+            blockers.push(self.upgrading);
         }
-
-        // Check existing locks by this transaction
-        let has_lock = false;
         for existing_req in &self.request_queue {
             let existing = existing_req.lock();
-            if existing.is_granted() && existing.get_txn_id() == txn_id {
-                //has_lock = true;
-                // Check if this is a valid lock upgrade
-                return match (existing.get_lock_mode(), new_mode) {
-                    // IS -> [S, X, IX, SIX]
-                    (LockMode::IntentionShared, _) => true,
-                    // S -> [X, SIX]
-                    (
-                        LockMode::Shared,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // IX -> [X, SIX]
-                    (
-                        LockMode::IntentionExclusive,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // SIX -> [X]
-                    (LockMode::SharedIntentionExclusive, LockMode::Exclusive) => true,
-                    // Same mode - already granted
-                    (mode1, mode2) if mode1 == mode2 => true,
-                    // Invalid upgrade
-                    _ => false,
-                };
+            if existing.granted
+                && existing.txn_id != txn_id
+                && !LockCompatibilityChecker::are_compatible(existing.lock_mode, mode)
+            {
+                blockers.push(existing.txn_id);
             }
         }
+        blockers
+    }
 
-        // If this transaction doesn't have a lock yet, check compatibility with all granted locks
-        if !has_lock {
-            for existing_req in &self.request_queue {
-                let existing = existing_req.lock();
-                if existing.is_granted()
-                    && !LockCompatibilityChecker::are_compatible(existing.get_lock_mode(), new_mode)
-                {
-                    return false;
-                }
-            }
-        }
-        true
+    /// The lock modes `txn_id` has been granted on this resource.
+    fn held_modes(&self, txn_id: TxnId) -> Vec<LockMode> {
+        self.modes_of(txn_id, true)
+    }
+
+    fn modes_of(&self, txn_id: TxnId, granted: bool) -> Vec<LockMode> {
+        self.request_queue
+            .iter()
+            .map(|req| req.lock())
+            .filter(|req| req.txn_id == txn_id && req.granted == granted)
+            .map(|req| req.lock_mode)
+            .collect()
+    }
+
+    /// Checks if a new lock request is compatible with the locks granted to other
+    /// transactions (and with an upgrade another transaction is waiting for).
+    pub fn compatible_with_existing_locks(&self, request: &LockRequest) -> bool {
+        self.blockers(request.txn_id, request.lock_mode).is_empty()
     }
 
     /// Attempts to grant a lock request.
+    ///
+    /// Locks the transaction already holds on the resource stay granted; the request is
+    /// queued if it must wait for other transactions.
     pub fn grant_lock(&mut self, request: Arc<Mutex<LockRequest>>) -> bool {
-        let txn_id = request.lock().get_txn_id();
-        let lock_mode = request.lock().get_lock_mode();
-
-        // Check for existing locks by this transaction
-        let mut existing_lock = None;
-        for (i, existing_req) in self.request_queue.iter().enumerate() {
-            let existing = existing_req.lock();
-            if existing.is_granted() && existing.get_txn_id() == txn_id {
-                if existing.get_lock_mode() == lock_mode {
-                    return true; // Already have this lock
-                }
-                existing_lock = Some((i, existing.get_lock_mode()));
-                break;
-            }
-        }
+        let (txn_id, lock_mode) = {
+            let request = request.lock();
+            (request.txn_id, request.lock_mode)
+        };
 
-        // Handle lock upgrade if needed
-        if let Some((i, old_mode)) = existing_lock {
-            // Check if upgrade is allowed
-            match (old_mode, lock_mode) {
-                // Keep both locks for valid combinations
-                (LockMode::IntentionShared, LockMode::Shared)
-                | (LockMode::IntentionExclusive, LockMode::Exclusive) => {
-                    // Don't remove the intention lock, just add the new lock
-                },
-                // For other upgrades, remove the old lock
-                _ => {
-                    if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
-                        return false; // Another transaction is upgrading
-                    }
-                    self.upgrading = txn_id;
-                    self.request_queue.remove(i);
-                },
-            }
+        let held = self.held_modes(txn_id);
+        if lock_mode.is_covered_by(&held) {
+            return true; // Already have this lock
         }
 
-        // Check compatibility with existing locks
-        if self.compatible_with_existing_locks(&request.lock()) {
-            // Grant the new lock
-            self.request_queue.push_back(request.clone());
+        if self.blockers(txn_id, lock_mode).is_empty() {
             request.lock().granted = true;
-            if self.upgrading == txn_id {
-                self.upgrading = INVALID_TXN_ID;
-            }
+            self.request_queue.push_back(request);
+            self.drop_covered_waits(txn_id);
             self.cv.notify_all();
             return true;
         }
 
-        // Add request to queue but don't grant it yet
-        self.request_queue.push_back(request);
+        // Not compatible, add to queue and wait
+        if !held.is_empty() && self.upgrading == INVALID_TXN_ID {
+            self.upgrading = txn_id;
+        }
+        if !self.modes_of(txn_id, false).contains(&lock_mode) {
+            self.request_queue.push_back(request);
+        }
         false
     }
+
+    /// Forgets the waiting requests of `txn_id` that its granted locks already cover.
+    fn drop_covered_waits(&mut self, txn_id: TxnId) {
+        let held = self.held_modes(txn_id);
+        self.request_queue.retain(|req| {
+            let req = req.lock();
+            req.txn_id != txn_id || req.granted || !req.lock_mode.is_covered_by(&held)
+        });
+        self.settle_upgrade();
+    }
+
+    /// An upgrade is over once the upgrading transaction no longer waits for anything.
+    fn settle_upgrade(&mut self) {
+        if self.modes_of(self.upgrading, false).is_empty() {
+            self.upgrading = INVALID_TXN_ID;
+        }
+    }
+
+    /// Transactions with a request that has not been granted.
+    fn waiting_txns(&self) -> Vec<TxnId> {
+        self.request_queue
+            .iter()
+            .map(|req| req.lock())
+            .filter(|req| !req.granted)
+            .map(|req| req.txn_id)
+            .collect()
+    }
+
+    /// The transactions `txn_id` waits for on this resource.
+    fn waits_of(&self, txn_id: TxnId) -> Vec<TxnId> {
+        self.modes_of(txn_id, false)
+            .into_iter()
+            .flat_map(|mode| self.blockers(txn_id, mode))
+            .collect()
+    }
+
+    /// Grants waiting requests, oldest first, until none of them can be granted.
+    /// Returns the transactions that were granted a lock, and on what.
+    fn grant_waiting(&mut self) -> Vec<(TxnId, TableOidT, Option<RID>)> {
+        let mut granted = Vec::new();
+        self.settle_upgrade();
+        while let Some(next) = self
+            .request_queue
+            .iter()
+            .find(|req| {
+                let (txn_id, mode, waiting) = {
+                    let req = req.lock();
+                    (req.txn_id, req.lock_mode, !req.granted)
+                };
+                waiting && self.blockers(txn_id, mode).is_empty()
+            })
+            .cloned()
+        {
+            let txn_id = {
+                let mut next = next.lock();
+                next.granted = true;
+                granted.push((next.txn_id, next.oid, next.rid));
+                next.txn_id
+            };
+            self.drop_covered_waits(txn_id);
+        }
+        self.cv.notify_all();
+        granted
+    }
 }
 
 impl Default for DeadlockDetector {
@@ -518,6 +566,24 @@ impl DeadlockDetector {
         waits_for.remove(&t1);
     }
 
+    /// Whether `txn_id` is (still) the transaction a deadlock is to be broken with.
+    fn is_victim(&self, txn_id: TxnId) -> bool {
+        let mut victim = INVALID_TXN_ID;
+        self.has_cycle(&mut victim) && victim == txn_id
+    }
+
+    /// Replaces all edges leaving `t1`; `waits_for` is evaluated with the graph locked, so
+    /// that concurrent replacements take effect in the order of what they saw.
+    fn replace_edges(&self, t1: TxnId, waits_for: impl FnOnce() -> Vec<TxnId>) {
+        let mut graph = self.waits_for.lock();
+        let edges = waits_for();
+        if edges.is_empty() {
+            graph.remove(&t1);
+        } else {
+            graph.insert(t1, edges);
+        }
+    }
+
     /// Starts the background deadlock detection thread.
     ///
     /// The thread runs DFS every 50ms to detect cycles. When a cycle is
@@ -661,15 +727,15 @@ impl LockStateManager {
         let mut queue_guard = queue.lock();
         let granted = queue_guard.grant_lock(request);
 
-        // If granted, update transaction's lock set
+        // Update transaction's lock set
+        let mut txn_locks = self.txn_lock_sets.lock();
+        let lock_state = txn_locks.entry(txn_id).or_default();
         if granted {
-            let mut txn_locks = self.txn_lock_sets.lock();
-            let lock_state = txn_locks.entry(txn_id).or_insert_with(|| TxnLockState {
-                table_locks: HashSet::new(),
-                row_locks: HashSet::new(),
-            });
             lock_state.table_locks.insert(oid);
+        } else {
+            lock_state.waiting_tables.insert(oid);
         }
+        drop(txn_locks);
 
         // Drop locks in reverse order to avoid deadlock
         drop(queue_guard);
@@ -682,7 +748,13 @@ impl LockStateManager {
     ///
     /// # Returns
     /// `true` if the lock was granted, `false` if it must wait.
-    pub fn grant_row_lock(&self, txn_id: TxnId, lock_mode: LockMode, rid: RID) -> bool {
+    pub fn grant_row_lock(
+        &self,
+        txn_id: TxnId,
+        lock_mode: LockMode,
+        oid: TableOidT,
+        rid: RID,
+    ) -> bool {
         let mut row_locks = self.row_locks.lock();
         let queue = row_locks
             .entry(rid)
@@ -691,19 +763,18 @@ impl LockStateManager {
         let request = Arc::new(Mutex::new(LockRequest::new_row_request(
             txn_id,
             lock_mode,
-            rid.get_page_id(),
+            oid,
             rid,
         )));
-        let granted = queue.lock().grant_lock(request.clone());
+        let granted = queue.lock().grant_lock(request);
 
+        // Update transaction's lock set
+        let mut txn_locks = self.txn_lock_sets.lock();
+        let lock_state = txn_locks.entry(txn_id).or_default();
         if granted {
-            // Update transaction's lock set
-            let mut txn_locks = self.txn_lock_sets.lock();
-            let lock_state = txn_locks.entry(txn_id).or_insert_with(|| TxnLockState {
-                table_locks: HashSet::new(),
-                row_locks: HashSet::new(),
-            });
-            lock_state.row_locks.insert((rid.get_page_id(), rid));
+            lock_state.row_locks.insert((oid, rid));
+        } else {
+            lock_state.waiting_rows.insert(rid);
         }
 
         granted
@@ -716,32 +787,20 @@ impl LockStateManager {
         if let Some(queue) = table_locks.get(&oid) {
             let mut queue_guard = queue.lock();
 
-            // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
-                let req = req.lock();
-                req.get_txn_id() == txn_id && req.is_granted()
-            }) {
-                // Remove the lock request
-                queue_guard.request_queue.remove(pos);
+            if !queue_guard.held_modes(txn_id).is_empty() {
+                // Remove the transaction's granted requests
+                queue_guard.request_queue.retain(|req| {
+                    let req = req.lock();
+                    req.txn_id != txn_id || !req.granted
+                });
 
                 // Update transaction's lock set
-                let mut txn_locks = self.txn_lock_sets.lock();
-                if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
+                if let Some(lock_state) = self.txn_lock_sets.lock().get_mut(&txn_id) {
                     lock_state.table_locks.remove(&oid);
                 }
 
                 // Try to grant waiting locks
-                let mut i = 0;
-                while i < queue_guard.request_queue.len() {
-                    let request = queue_guard.request_queue[i].clone();
-                    if !request.lock().is_granted()
-                        && queue_guard.compatible_with_existing_locks(&request.lock())
-                    {
-                        request.lock().granted = true;
-                    }
-                    i += 1;
-                }
-                queue_guard.cv.notify_all();
+                self.grant_waiting_locks(&mut queue_guard);
 
                 return Ok(());
             }
@@ -757,17 +816,16 @@ impl LockStateManager {
         if let Some(queue) = row_locks.get(&rid) {
             let mut queue_guard = queue.lock();
 
-            // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
-                let req = req.lock();
-                req.get_txn_id() == txn_id && req.is_granted()
-            }) {
-                queue_guard.request_queue.remove(pos);
+            if !queue_guard.held_modes(txn_id).is_empty() {
+                // Remove the transaction's granted requests
+                queue_guard.request_queue.retain(|req| {
+                    let req = req.lock();
+                    req.txn_id != txn_id || !req.granted
+                });
 
                 // Update transaction's lock set
-                let mut txn_locks = self.txn_lock_sets.lock();
-                if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
-                    lock_state.row_locks.remove(&(rid.get_page_id(), rid));
+                if let Some(lock_state) = self.txn_lock_sets.lock().get_mut(&txn_id) {
+                    lock_state.row_locks.retain(|(_, held)| *held != rid);
                 }
 
                 // Try to grant waiting locks
@@ -779,22 +837,19 @@ impl LockStateManager {
         Err(LockError::NoLockHeld)
     }
 
-    /// Force releases all locks held by the given transaction without mutating the transaction state.
+    /// Releases all locks held by a transaction and drops its waiting requests
+    /// (used during forced abort).
     pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
-        // Snapshot locks held by the transaction.
-        let (table_locks, row_locks_for_txn) = {
-            let txn_locks = self.txn_lock_sets.lock();
-            if let Some(state) = txn_locks.get(&txn_id) {
-                (state.table_locks.clone(), state.row_locks.clone())
-            } else {
-                return Ok(()); // Nothing to release
-            }
+        // Get the transaction's lock state
+        let Some(state) = self.txn_lock_sets.lock().get(&txn_id).cloned() else {
+            return Ok(()); // Nothing to release
         };
 
-        // Release row locks first to avoid table-lock ordering issues.
+        // Release row locks first
         {
             let row_locks = self.row_locks.lock();
-            for (_, rid) in row_locks_for_txn.iter() {
+            let rids: HashSet<RID> = state.row_locks.iter().map(|(_, rid)| *rid).collect();
+            for rid in rids.union(&state.waiting_rows) {
                 if let Some(queue) = row_locks.get(rid) {
                     let mut queue_guard = queue.lock();
                     queue_guard
@@ -805,10 +860,10 @@ impl LockStateManager {
             }
         }
 
-        // Release table locks.
+        // Then release table locks
         {
             let table_locks_map = self.table_lock_map.lock();
-            for oid in table_locks.iter() {
+            for oid in state.table_locks.union(&state.waiting_tables) {
                 if let Some(queue) = table_locks_map.get(oid) {
                     let mut queue_guard = queue.lock();
                     queue_guard
@@ -819,30 +874,71 @@ impl LockStateManager {
             }
         }
 
-        // Remove transaction lock state entry.
-        let mut txn_locks = self.txn_lock_sets.lock();
-        txn_locks.remove(&txn_id);
+        // Clean up transaction state
+        self.txn_lock_sets.lock().remove(&txn_id);
 
         Ok(())
     }
 
-    /// Attempts to grant locks to waiting transactions
+    /// Grants locks to waiting transactions when possible and records them in the
+    /// transactions' lock sets.
     fn grant_waiting_locks(&self, queue: &mut MutexGuard<RawMutex, LockRequestQueue>) {
-        let mut i = 0;
-        while i < queue.request_queue.len() {
-            let request = queue.request_queue[i].clone();
-            if !request.lock().is_granted() && queue.compatible_with_existing_locks(&request.lock())
-            {
-                request.lock().granted = true;
-                // Don't increment i since we want to check the next request
-            } else {
-                i += 1;
-            }
+        let granted = queue.grant_waiting();
+        let mut txn_locks = self.txn_lock_sets.lock();
+        for (txn_id, oid, rid) in granted {
+            let lock_state = txn_locks.entry(txn_id).or_default();
+            match rid {
+                Some(rid) => lock_state.row_locks.insert((oid, rid)),
+                None => lock_state.table_locks.insert(oid),
+            };
         }
-        queue.cv.notify_all();
     }
 
-    /// Checks if a transaction has a lock on a table
+    /// The transactions waiting for a lock on a table.
+    fn table_waiters(&self, oid: TableOidT) -> Vec<TxnId> {
+        let queue = self.table_lock_map.lock().get(&oid).cloned();
+        queue.map_or_else(Vec::new, |queue| queue.lock().waiting_txns())
+    }
+
+    /// The transactions waiting for a lock on a row.
+    fn row_waiters(&self, rid: RID) -> Vec<TxnId> {
+        let queue = self.row_locks.lock().get(&rid).cloned();
+        queue.map_or_else(Vec::new, |queue| queue.lock().waiting_txns())
+    }
+
+    /// The transactions waiting for a lock on anything `txn_id` holds or waits for.
+    fn waiters_around(&self, txn_id: TxnId) -> Vec<TxnId> {
+        let Some(state) = self.txn_lock_sets.lock().get(&txn_id).cloned() else {
+            return Vec::new();
+        };
+        let tables = state.table_locks.union(&state.waiting_tables);
+        let rows: HashSet<RID> = state.row_locks.iter().map(|(_, rid)| *rid).collect();
+        tables
+            .flat_map(|oid| self.table_waiters(*oid))
+            .chain(
+                rows.union(&state.waiting_rows)
+                    .flat_map(|rid| self.row_waiters(*rid)),
+            )
+            .collect()
+    }
+
+    /// The transactions `txn_id` currently waits for.
+    fn waits_of(&self, txn_id: TxnId) -> Vec<TxnId> {
+        let Some(state) = self.txn_lock_sets.lock().get(&txn_id).cloned() else {
+            return Vec::new();
+        };
+        let mut waits = Vec::new();
+        for oid in &state.waiting_tables {
+            let queue = self.table_lock_map.lock().get(oid).cloned();
+            waits.extend(queue.iter().flat_map(|queue| queue.lock().waits_of(txn_id)));
+        }
+        for rid in &state.waiting_rows {
+            let queue = self.row_locks.lock().get(rid).cloned();
+            waits.extend(queue.iter().flat_map(|queue| queue.lock().waits_of(txn_id)));
+        }
+        waits
+    }
+
     pub fn has_table_lock(&self, txn_id: TxnId, oid: TableOidT) -> bool {
         let txn_locks = self.txn_lock_sets.lock();
         txn_locks
@@ -931,6 +1027,15 @@ impl LockValidator {
         txn: &Transaction,
         lock_mode: LockMode,
     ) -> Result<(), LockError> {
+        // A finished transaction gets no locks at any isolation level
+        match txn.get_state() {
+            TransactionState::Aborted | TransactionState::Tainted => {
+                return Err(LockError::TransactionAborted);
+            },
+            TransactionState::Committed => return Err(LockError::TransactionCommitted),
+            _ => {},
+        }
+
         match txn.get_isolation_level() {
             IsolationLevel::ReadUncommitted => self.validate_read_uncommitted(txn, lock_mode),
             IsolationLevel::ReadCommitted => self.validate_read_committed(txn, lock_mode),
@@ -1047,47 +1152,19 @@ impl LockManager {
         // 1. Validate the lock request
         self.lock_validator.validate_lock_request(&txn, lock_mode)?;
 
-        // 2. Create lock request
-        let request = Arc::new(Mutex::new(LockRequest::new_table_request(
-            txn.get_transaction_id(),
-            lock_mode,
-            oid,
-        )));
-
-        // 3. Get or create lock queue for this table
-        let mut table_locks = self.lock_state_manager.table_lock_map.lock();
-        let queue = table_locks
-            .entry(oid)
-            .or_insert_with(|| Arc::new(Mutex::new(LockRequestQueue::new())));
-
-        // 4. Try to grant the lock
-        let mut queue_guard = queue.lock();
-        let granted = queue_guard.grant_lock(request.clone());
+        // 2. Try to grant the lock
+        let txn_id = txn.get_transaction_id();
+        let granted = self
+            .lock_state_manager
+            .grant_table_lock(txn_id, lock_mode, oid);
 
-        // 5. If granted, update transaction's lock set
-        if granted {
-            let mut txn_locks = self.lock_state_manager.txn_lock_sets.lock();
-            let lock_state = txn_locks
-                .entry(txn.get_transaction_id())
-                .or_insert_with(|| TxnLockState {
-                    table_locks: HashSet::new(),
-                    row_locks: HashSet::new(),
-                });
-            lock_state.table_locks.insert(oid);
-        } else {
-            // 6. If not granted, add edge to waits-for graph
-            for existing_req in &queue_guard.request_queue {
-                let existing = existing_req.lock();
-                if existing.granted {
-                    self.deadlock_detector
-                        .add_edge(txn.get_transaction_id(), existing.txn_id);
-                }
-            }
+        // 3. Bring the waits-for graph up to date
+        self.refresh_waits(self.lock_state_manager.table_waiters(oid));
+        self.refresh_waits([txn_id]);
 
-            // 7. Check for deadlock
-            if self.check_deadlock(txn.clone())? {
-                return Ok(false);
-            }
+        // 4. Check for deadlock if the transaction has to wait
+        if !granted && self.check_deadlock(txn)? {
+            return Ok(false);
         }
 
         Ok(granted)
@@ -1127,6 +1204,7 @@ impl LockManager {
         }
 
         // 3. Release the lock
+        let waiters = self.lock_state_manager.table_waiters(oid);
         self.lock_state_manager
             .release_table_lock(txn.get_transaction_id(), oid)?;
 
@@ -1160,7 +1238,7 @@ impl LockManager {
         }
 
         // 5. Remove edges from waits-for graph
-        self.deadlock_detector.remove_edge(txn.get_transaction_id());
+        self.refresh_waits(waiters);
 
         Ok(true)
     }
@@ -1239,26 +1317,15 @@ impl LockManager {
         // 4. Try to grant the lock
         let granted =
             self.lock_state_manager
-                .grant_row_lock(txn.get_transaction_id(), lock_mode, rid);
+                .grant_row_lock(txn.get_transaction_id(), lock_mode, oid, rid);
 
-        if !granted {
-            // 5. If not granted, add edge to waits-for graph
-            let row_locks = self.lock_state_manager.row_locks.lock();
-            if let Some(queue) = row_locks.get(&rid) {
-                let queue_guard = queue.lock();
-                for request in &queue_guard.request_queue {
-                    let req = request.lock();
-                    if req.granted {
-                        self.deadlock_detector
-                            .add_edge(txn.get_transaction_id(), req.txn_id);
-                    }
-                }
-            }
+        // Bring the waits-for graph up to date
+        self.refresh_waits(self.lock_state_manager.row_waiters(rid));
+        self.refresh_waits([txn.get_transaction_id()]);
 
-            // 6. Check for deadlock
-            if self.check_deadlock(txn.clone())? {
-                return Ok(false);
-            }
+        // Check for deadlock if the transaction has to wait
+        if !granted && self.check_deadlock(txn)? {
+            return Ok(false);
         }
 
         Ok(granted)
@@ -1290,6 +1357,7 @@ impl LockManager {
         }
 
         // 2. Release the lock
+        let waiters = self.lock_state_manager.row_waiters(rid);
         self.lock_state_manager
             .release_row_lock(txn.get_transaction_id(), rid)?;
 
@@ -1323,17 +1391,14 @@ impl LockManager {
         }
 
         // 4. Remove edges from waits-for graph
-        self.deadlock_detector.remove_edge(txn.get_transaction_id());
+        self.refresh_waits(waiters);
 
         Ok(true)
     }
 
     /// Releases all locks from all transactions (for testing/reset).
     pub fn unlock_all(&self) -> Result<bool, LockError> {
-        // 1. Get all lock sets
-        let mut txn_locks = self.lock_state_manager.txn_lock_sets.lock();
-
-        // 2. Clear all lock queues
+        // 1. Clear all lock queues
         {
             let mut table_locks = self.lock_state_manager.table_lock_map.lock();
             table_locks.clear();
@@ -1343,10 +1408,10 @@ impl LockManager {
             row_locks.clear();
         }
 
-        // 3. Clear transaction lock sets
-        txn_locks.clear();
+        // 2. Clear transaction lock sets
+        self.lock_state_manager.txn_lock_sets.lock().clear();
 
-        // 4. Clear deadlock detection graph
+        // 3. Clear deadlock detection graph
         {
             let mut waits_for = self.deadlock_detector.waits_for.lock();
             waits_for.clear();
@@ -1357,9 +1422,20 @@ impl LockManager {
 
     /// Force releases all locks held by the provided transaction ID without altering its state.
     pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
+        let waiters = self.lock_state_manager.waiters_around(txn_id);
+        self.lock_state_manager.force_release_txn(txn_id)?;
         // Remove waits-for edges for this transaction as it no longer blocks others.
         self.deadlock_detector.remove_edge(txn_id);
-        self.lock_state_manager.force_release_txn(txn_id)
+        self.refresh_waits(waiters);
+        Ok(())
+    }
+
+    /// Recomputes whom each of `txns` waits for after the locks around them have changed.
+    fn refresh_waits(&self, txns: impl IntoIterator<Item = TxnId>) {
+        for txn_id in txns {
+            self.deadlock_detector
+                .replace_edges(txn_id, || self.lock_state_manager.waits_of(txn_id));
+        }
     }
 
     /// Checks if this transaction was selected as a deadlock victim.
@@ -1368,6 +1444,7 @@ impl LockManager {
     pub fn check_deadlock(&self, txn: Arc<Transaction>) -> Result<bool, LockError> {
         if let Some(abort_txn) = self.deadlock_detector.get_and_clear_abort_txn()
             && abort_txn == txn.get_transaction_id()
+            && self.deadlock_detector.is_victim(abort_txn)
         {
             txn.set_state(TransactionState::Aborted);
             return Ok(true);
-- 
2.43.0


From 09662d0d4f388387820ae028d90a1bea4fe6bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 13/56] fix: in-memory B+ tree must keep separators and
 duplicates straight, and its iterators must end

---
 src/storage/index/b_plus_tree.rs        | 56 +++++++++++++++++++----
 src/storage/index/index_iterator_mem.rs | 60 ++++---------------------
 2 files changed, 57 insertions(+), 59 deletions(-)

diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index bf87947..3d8a413 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -180,6 +180,12 @@ impl BPlusTree {
     pub fn insert(&mut self, key: Value, rid: RID) -> bool {
         debug!("Inserting key {:?} with RID {:?}", key, rid);
 
+        // Equal keys may span several leaves, so the pair is looked for before inserting
+        if self.contains(&key, rid) {
+            debug!("Found duplicate key-RID pair");
+            return false;
+        }
+
         let root_is_full = {
             let root_guard = self.root.read();
             let is_full = root_guard.keys.len() == self.order - 1;
@@ -220,6 +226,42 @@ impl BPlusTree {
         }
     }
 
+    /// Whether the tree holds the pair (`key`, `rid`).
+    fn contains(&self, key: &Value, rid: RID) -> bool {
+        let mut current_node = Arc::clone(&self.root);
+        loop {
+            let next_node = {
+                let node = current_node.read();
+                match node.node_type {
+                    NodeType::Internal => {
+                        // The leftmost child that can hold the key
+                        let child_idx = node
+                            .keys
+                            .iter()
+                            .position(|k| k.compare_greater_than_equals(key) == CmpBool::CmpTrue)
+                            .unwrap_or(node.keys.len());
+                        Some(Arc::clone(&node.children[child_idx]))
+                    },
+                    NodeType::Leaf => {
+                        for (k, r) in node.keys.iter().zip(node.values.iter()) {
+                            if k.compare_greater_than(key) == CmpBool::CmpTrue {
+                                return false;
+                            }
+                            if *r == rid && k.compare_equals(key) == CmpBool::CmpTrue {
+                                return true;
+                            }
+                        }
+                        node.next_leaf.clone()
+                    },
+                }
+            };
+            match next_node {
+                Some(next) => current_node = next,
+                None => return false,
+            }
+        }
+    }
+
     pub fn delete(&self, key: &Value, rid: RID) -> bool {
         debug!("Starting delete for key {:?} with RID {:?}", key, rid);
         let mut nodes_to_check = vec![(Arc::clone(&self.root), Vec::new())];
@@ -762,8 +804,8 @@ impl BPlusTree {
                 // For leaf splits, use the first key of the right node as separator
                 let split_key = new_node_arc.read().keys[0].clone();
 
-                let mut insert_pos = self.find_insert_position(&parent.keys, &split_key);
-                insert_pos = insert_pos.min(parent.keys.len());
+                // The separator goes right after the split child, even if equal keys surround it
+                let insert_pos = child_idx;
 
                 debug!(
                     "Inserting separator key at position {} in parent (len={})",
@@ -798,10 +840,8 @@ impl BPlusTree {
                 child_guard.keys.remove(split_point);
 
                 // For internal splits, ensure the routing key is greater than all keys in left subtree
-                let mut insert_pos = self.find_insert_position(&parent.keys, &middle_key);
-                insert_pos = insert_pos.min(parent.keys.len());
-
-                debug!("Inserting middle key at position {} in parent", insert_pos);
+                // The separator goes right after the split child, even if equal keys surround it
+                let insert_pos = child_idx;
 
                 parent.keys.insert(insert_pos, middle_key.clone());
                 parent
@@ -1006,7 +1046,7 @@ impl BPlusTree {
             },
             NodeType::Internal => {
                 // Move parent's separator key down to left sibling
-                let separator = parent.keys.remove(child_idx - 1);
+                let separator = parent.keys[child_idx - 1].clone();
                 left.keys.push(separator);
 
                 // Move all keys and children from right to left
@@ -1044,7 +1084,7 @@ impl BPlusTree {
             },
             NodeType::Internal => {
                 // Move parent's separator key down to left node
-                let separator = parent.keys.remove(child_idx);
+                let separator = parent.keys[child_idx].clone();
                 left.keys.push(separator);
 
                 // Move all keys and children from right to left
diff --git a/src/storage/index/index_iterator_mem.rs b/src/storage/index/index_iterator_mem.rs
index f54349c..c15a524 100644
--- a/src/storage/index/index_iterator_mem.rs
+++ b/src/storage/index/index_iterator_mem.rs
@@ -210,56 +210,12 @@ impl IndexIterator {
 
             // Range scan case
             (Some(start), Some(end)) => {
-                let scan_start = if let Some(last_key) = &self.last_key {
-                    let schema = start.get_schema();
-                    let mut values = start.get_values();
-
-                    // Continue from the last processed key.
-                    //
-                    // NOTE: The B+ tree currently only supports a single key column.
-                    // We still validate the attribute index against the tuple to avoid panics.
-                    // Keep the metadata Arc alive while borrowing key attrs.
-                    let metadata = tree_guard.get_metadata();
-                    let key_attr = *metadata
-                        .get_key_attrs()
-                        .first()
-                        .expect("B+ tree metadata must have at least one key attribute");
-
-                    if let Err(e) = start.keys_from_tuple_checked(&[key_attr]) {
-                        let msg = format!(
-                            "invalid start_key for index range scan: missing key_attr {} (tuple cols={}): {}",
-                            key_attr,
-                            start.get_column_count(),
-                            e
-                        );
-                        debug!("{msg}");
-                        self.exhausted = true;
-                        self.last_error = Some(msg.clone());
-                        return Err(msg);
-                    }
-                    if key_attr >= values.len() {
-                        let msg = format!(
-                            "invalid start_key for index range scan: key_attr {} out of bounds (values len={})",
-                            key_attr,
-                            values.len()
-                        );
-                        debug!("{msg}");
-                        self.exhausted = true;
-                        self.last_error = Some(msg.clone());
-                        return Err(msg);
-                    }
-                    values[key_attr] = last_key.clone();
-
-                    // Create a new tuple with the modified values
-                    let new_start = Arc::new(Tuple::new(&values, &schema, RID::new(0, 0)));
-                    debug!("Continuing range scan from key: {:?}", new_start);
-                    new_start
-                } else {
-                    debug!("Starting fresh range scan from: {:?}", start);
-                    start.clone()
-                };
-
-                tree_guard.scan_range(&scan_start, end, self.last_key.is_none())
+                if self.last_key.is_some() {
+                    // We've already scanned the whole range once, so we're done
+                    self.exhausted = true;
+                    return Ok(false);
+                }
+                tree_guard.scan_range(start, end, true)
             },
             _ => {
                 let msg =
@@ -303,6 +259,7 @@ impl IndexIterator {
         self.current_batch.clear();
         self.position = 0;
         self.exhausted = false;
+        self.last_key = None;
         self.last_error = None;
         // Ignore errors here; callers can observe them via `try_next()` which is fallible.
         let _ = self.fetch_next_batch();
@@ -355,7 +312,8 @@ impl Iterator for IndexIterator {
 // Add support for reverse iteration
 impl DoubleEndedIterator for IndexIterator {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current_batch.is_empty() {
+        // Entries before `position` have already been returned from the front
+        if self.current_batch.len() <= self.position {
             return None;
         }
 
-- 
2.43.0


From b2e93ba7570dbc4f20e20d75b6c3aa464e26aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:46 +0000
Subject: [PATCH 14/56] fix: table pages must keep their slots through
 eviction, growth and metadata changes, and scans must report the row they
 return

---
 src/storage/page/page_types/table_page.rs | 214 +++++++++++-----------
 src/storage/table/table_iterator.rs       |   8 +-
 2 files changed, 111 insertions(+), 111 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 7712c2e..be9fc6d 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -241,11 +241,29 @@ impl TablePage {
         self.header.num_deleted_tuples = 0;
         self.tuple_info.clear();
         self.is_dirty = false;
-        self.data[PAGE_TYPE_OFFSET] = Self::TYPE_ID as u8;
+        self.sync_data();
+    }
+
+    /// Brings the raw page bytes in line with the header and the slot table, so that the page is written back with
+    /// everything in it.
+    fn sync_data(&mut self) {
+        let serialized = self.serialize();
+        self.data.copy_from_slice(&serialized);
+    }
+
+    /// Replaces the metadata of a slot, keeping the number of deleted tuples.
+    fn set_slot_meta(&mut self, tuple_id: usize, meta: TupleMeta) {
+        let was_deleted = self.tuple_info[tuple_id].2.is_deleted();
+        if !was_deleted && meta.is_deleted() {
+            self.header.num_deleted_tuples += 1;
+        } else if was_deleted && !meta.is_deleted() {
+            self.header.num_deleted_tuples = self.header.num_deleted_tuples.saturating_sub(1);
+        }
+        self.tuple_info[tuple_id].2 = meta;
     }
 
     /// Gets the next offset to insert a tuple.
-    pub fn get_next_tuple_offset(&self, meta: &TupleMeta, tuple: &Tuple) -> Option<u16> {
+    pub fn get_next_tuple_offset(&self, _meta: &TupleMeta, tuple: &Tuple) -> Option<u16> {
         // First check if the tuple is too large for any page
         if self.is_tuple_too_large(tuple) {
             debug!("Tuple is too large for any page, rejecting");
@@ -268,15 +286,16 @@ impl TablePage {
             return None;
         }
 
-        let slot_end_offset = if self.header.num_tuples > 0 {
-            self.tuple_info[self.header.num_tuples as usize - 1].0
-        } else {
-            DB_PAGE_SIZE as u16
-        };
+        let slot_end_offset = self
+            .tuple_info
+            .iter()
+            .map(|(offset, _, _)| *offset)
+            .min()
+            .unwrap_or(DB_PAGE_SIZE as u16);
 
         let tuple_offset = slot_end_offset.saturating_sub(tuple_size);
 
-        let metadata_footprint = self.metadata_footprint_with_new(meta)?;
+        let metadata_footprint = self.metadata_footprint_with_new();
 
         // Ensure we have enough space for tuple data + metadata region.
         if tuple_offset < metadata_footprint as u16 {
@@ -303,79 +322,60 @@ impl TablePage {
 
         // Serialize the new tuple data
         let tuple_data = postcard::to_allocvec(tuple).map_err(|_| PageError::SerializationError)?;
-        let new_size = tuple_data.len() as u16;
+        let new_size = tuple_data.len();
 
         // Get current tuple info
         let (current_offset, current_size, _) = self.tuple_info[tuple_id];
 
-        // Try to update in place if the new tuple size is smaller than or equal to current size
-        if new_size <= current_size {
-            // Update metadata in tuple_info
-            self.tuple_info[tuple_id].2 = meta;
-
-            // Update the size to reflect the actual new size
-            self.tuple_info[tuple_id].1 = new_size;
-
-            // Update the tuple data
+        if new_size <= current_size as usize {
+            // The slot keeps its size (the decoder ignores the padding), so that rolling back to the
+            // previous, larger tuple always has room.
             let start = current_offset as usize;
-            let end = start + new_size as usize;
-            if end <= self.data.len() {
-                self.data[start..end].copy_from_slice(&tuple_data);
-
-                // Clear any remaining bytes if the new tuple is smaller
-                if new_size < current_size {
-                    let clear_start = end;
-                    let clear_end = start + current_size as usize;
-                    if clear_end <= self.data.len() {
-                        self.data[clear_start..clear_end].fill(0);
-                    }
-                }
-
-                self.is_dirty = true;
-                Ok(())
-            } else {
-                Err(PageError::TupleInvalid)
+            let end = start + new_size;
+            let slot_end = start + current_size as usize;
+            if slot_end > self.data.len() {
+                return Err(PageError::TupleInvalid);
             }
+            self.data[start..end].copy_from_slice(&tuple_data);
+            self.data[end..slot_end].fill(0);
         } else {
-            // If new tuple is larger, we need to find a new location
-            // Calculate the minimum offset considering all existing tuples except the one being updated
-            let min_offset = self
+            // The tuple outgrows its slot: lay out all slots afresh, which also reclaims the space
+            // that outgrown slots have left behind.
+            let others: usize = self
                 .tuple_info
                 .iter()
                 .enumerate()
-                .filter(|(i, _)| *i != tuple_id) // Exclude the tuple being updated
-                .map(|(_, (offset, _, _))| *offset)
-                .min()
-                .unwrap_or(DB_PAGE_SIZE as u16);
-
-            let new_offset = min_offset.saturating_sub(new_size);
-            let header_and_tuple_info_size = self.metadata_footprint_bytes() as u16;
-
-            if new_offset < header_and_tuple_info_size {
+                .filter(|(i, _)| *i != tuple_id)
+                .map(|(_, (_, size, _))| *size as usize)
+                .sum();
+            if tuple_data.len() > TUPLE_MAX_SERIALIZED_SIZE
+                || Self::reserved_metadata_bytes(self.tuple_info.len())
+                    + others
+                    + tuple_data.len()
+                    > DB_PAGE_SIZE as usize
+            {
                 return Err(PageError::TupleInvalid);
             }
-
-            // Clear the old tuple data
-            let old_start = current_offset as usize;
-            let old_end = old_start + current_size as usize;
-            if old_end <= self.data.len() {
-                self.data[old_start..old_end].fill(0);
-            }
-
-            // Update tuple info with new location
-            self.tuple_info[tuple_id] = (new_offset, new_size, meta);
-
-            // Write new tuple data
-            let start = new_offset as usize;
-            let end = start + new_size as usize;
-            if end <= self.data.len() {
-                self.data[start..end].copy_from_slice(&tuple_data);
-                self.is_dirty = true;
-                Ok(())
-            } else {
-                Err(PageError::TupleInvalid)
+            let old_data = self.data.clone();
+            let mut offset = DB_PAGE_SIZE as usize;
+            for (i, slot) in self.tuple_info.iter_mut().enumerate() {
+                let (old_start, old_size) = (slot.0 as usize, slot.1 as usize);
+                let bytes = if i == tuple_id {
+                    &tuple_data[..]
+                } else {
+                    &old_data[old_start..old_start + old_size]
+                };
+                offset -= bytes.len();
+                self.data[offset..offset + bytes.len()].copy_from_slice(bytes);
+                slot.0 = offset as u16;
+                slot.1 = bytes.len() as u16;
             }
         }
+
+        self.set_slot_meta(tuple_id, meta);
+        self.is_dirty = true;
+        self.sync_data();
+        Ok(())
     }
 
     /// Updates the metadata of a tuple.
@@ -420,23 +420,9 @@ impl TablePage {
             meta.is_deleted()
         );
 
-        if !old_meta.is_deleted() && meta.is_deleted() {
-            self.header.num_deleted_tuples += 1;
-            debug!(
-                "Incrementing num_deleted_tuples to {}",
-                self.header.num_deleted_tuples
-            );
-        } else if old_meta.is_deleted() && !meta.is_deleted() {
-            self.header.num_deleted_tuples = self.header.num_deleted_tuples.saturating_sub(1);
-            debug!(
-                "Decrimenting num_deleted_tuples to {}",
-                self.header.num_deleted_tuples
-            );
-        }
-
-        // Simple copy since TupleMeta is now Copy
-        self.tuple_info[tuple_id].2 = meta;
+        self.set_slot_meta(tuple_id, meta);
         self.is_dirty = true;
+        self.sync_data();
 
         debug!(
             "Successfully updated tuple meta. Page is now dirty. num_deleted_tuples: {}",
@@ -547,11 +533,13 @@ impl TablePage {
     pub fn set_next_page_id(&mut self, page_id: PageId) {
         self.header.next_page_id = page_id;
         self.is_dirty = true;
+        self.sync_data();
     }
 
     pub fn set_prev_page_id(&mut self, page_id: PageId) {
         self.header.prev_page_id = page_id;
         self.is_dirty = true;
+        self.sync_data();
     }
 
     /// Serializes the page into a fixed-size byte array
@@ -838,10 +826,6 @@ impl TablePage {
         // Get current tuple info
         let (offset, size, _) = self.tuple_info[tuple_id];
 
-        // Update the tuple metadata (simple copy since TupleMeta is Copy)
-        self.tuple_info[tuple_id].2 = meta;
-
-        // Write the new tuple data
         let start = offset as usize;
         let end = start + size as usize;
         if end > self.data.len() {
@@ -852,9 +836,20 @@ impl TablePage {
                 self.data.len()
             ));
         }
+        if tuple_data.len() > size as usize {
+            return Err(format!(
+                "Tuple of {} bytes does not fit its slot of {} bytes",
+                tuple_data.len(),
+                size
+            ));
+        }
 
-        self.data[start..end].copy_from_slice(&tuple_data);
+        // Write the new tuple data
+        self.data[start..start + tuple_data.len()].copy_from_slice(&tuple_data);
+        self.data[start + tuple_data.len()..end].fill(0);
+        self.set_slot_meta(tuple_id, meta);
         self.is_dirty = true;
+        self.sync_data();
         Ok(())
     }
 
@@ -887,17 +882,20 @@ impl TablePage {
             + 4 // end magic
     }
 
-    fn metadata_footprint_with_new(&self, meta: &TupleMeta) -> Option<usize> {
-        let meta_len = postcard::to_allocvec(meta).ok()?.len();
-        Some(
-            1 // page type
-                + TablePageHeader::size()
-                + 4 // start magic
-                + self.encoded_tuple_info_bytes()
-                + 4 // offset+size for new tuple
-                + meta_len
-                + 4, // end magic
-        )
+    /// The most bytes an encoded `TupleMeta` can take. Committing, deleting or rolling back a tuple changes the
+    /// length of its encoding, so every slot reserves the maximum.
+    const MAX_META_BYTES: usize = 10 + (1 + 10) + 1 + (1 + 10);
+
+    fn reserved_metadata_bytes(slots: usize) -> usize {
+        1 // page type
+            + TablePageHeader::size()
+            + 4 // start magic
+            + slots * (4 + Self::MAX_META_BYTES)
+            + 4 // end magic
+    }
+
+    fn metadata_footprint_with_new(&self) -> usize {
+        Self::reserved_metadata_bytes(self.tuple_info.len() + 1)
     }
 
     /// Gets the total size of all tuple data in the page
@@ -941,13 +939,8 @@ impl TablePage {
             Err(_) => return true, // If we can't serialize it, consider it too large
         };
 
-        // Approximate metadata footprint if this tuple were added using a default meta.
-        // TupleMeta encoding is small; use a representative meta to reserve space.
-        let placeholder_meta = TupleMeta::new(0);
-        let meta_overhead = match self.metadata_footprint_with_new(&placeholder_meta) {
-            Some(bytes) => bytes,
-            None => return true,
-        };
+        // Metadata footprint if this tuple were added.
+        let meta_overhead = self.metadata_footprint_with_new();
 
         // Check both the absolute size and relative to page size
         serialized_size > TUPLE_MAX_SERIALIZED_SIZE // hard cap for tuple body
@@ -1205,6 +1198,14 @@ impl PageTrait for TablePage {
             });
         }
         self.data[offset..offset + new_data.len()].copy_from_slice(new_data);
+        // A whole page image brings its header and slots with it.
+        if offset == 0
+            && new_data.len() == self.data.len()
+            && let Ok(page) = Self::deserialize(&self.data)
+        {
+            self.header = page.header;
+            self.tuple_info = page.tuple_info;
+        }
         self.is_dirty = true;
         Ok(())
     }
@@ -1218,6 +1219,7 @@ impl PageTrait for TablePage {
         self.header.prev_page_id = INVALID_PAGE_ID;
         self.header.next_page_id = INVALID_PAGE_ID;
         self.header.num_tuples = 0;
+        self.header.num_deleted_tuples = 0;
         self.tuple_info.clear();
         self.is_dirty = false;
         self.data[PAGE_TYPE_OFFSET] = Self::TYPE_ID as u8;
diff --git a/src/storage/table/table_iterator.rs b/src/storage/table/table_iterator.rs
index cadab87..ce757e6 100644
--- a/src/storage/table/table_iterator.rs
+++ b/src/storage/table/table_iterator.rs
@@ -422,7 +422,6 @@ impl Iterator for TableScanIterator {
             return None;
         }
 
-        let current_rid = self.inner.get_rid();
         let result = self.inner.next();
 
         // Update end status
@@ -430,7 +429,7 @@ impl Iterator for TableScanIterator {
             self.is_end = true;
             self.last_rid = None;
         } else {
-            self.last_rid = Some(current_rid);
+            self.last_rid = self.inner.get_last_rid();
         }
 
         result
@@ -441,10 +440,9 @@ impl Iterator for TableIterator {
     type Item = (Arc<TupleMeta>, Arc<Tuple>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Capture the RID we are about to return; `advance` will move to the next slot.
-        let current_rid = self.current_rid;
-
         while !self.is_end() {
+            // Capture the RID we may be about to return; `advance` will move to the next slot.
+            let current_rid = self.current_rid;
             debug!("Attempting to get tuple with RID: {:?}", self.current_rid);
 
             let result = if let Some(txn_ctx) = &self.txn_ctx {
-- 
2.43.0


From 6828404ade8ba94ab4d43dde84522ef50548eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:55 +0000
Subject: [PATCH 15/56] fix: versions must survive garbage collection and late
 aborts, rollback must restore rows exactly, and reads must follow the
 isolation level

Garbage collection dropped the undo links of running transactions, so their
abort destroyed the row and older snapshots lost it. READ COMMITTED used the
reader's snapshot when the latest version was uncommitted, and SNAPSHOT reads
through the plain heap returned the latest version. Rolling back several
writes to one row, a grown row or an insert left the wrong version behind,
transactions doomed by the lock manager were never rolled back, and a commit
was visible in parts to transactions that began meanwhile.
---
 src/concurrency/transaction.rs                |  12 +
 src/concurrency/transaction_manager.rs        | 303 ++++++------------
 src/storage/table/table_heap.rs               | 186 ++++-------
 src/storage/table/transactional_table_heap.rs | 194 ++---------
 4 files changed, 194 insertions(+), 501 deletions(-)

diff --git a/src/concurrency/transaction.rs b/src/concurrency/transaction.rs
index a1dca3a..dd692e0 100644
--- a/src/concurrency/transaction.rs
+++ b/src/concurrency/transaction.rs
@@ -169,6 +169,7 @@
 //! 4. **Write set completeness**: All modified RIDs must be in the write set
 
 use std::collections::{HashMap, HashSet};
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::{Arc, Mutex};
 use std::{fmt, thread};
 
@@ -451,6 +452,8 @@ pub struct Transaction {
     scan_predicates: Mutex<HashMap<u32, Vec<Arc<Expression>>>>,
     /// Previous LSN for WAL chaining.
     prev_lsn: RwLock<Lsn>,
+    /// Set by whoever undoes this transaction's changes, so that it happens once.
+    rollback_claimed: AtomicBool,
 }
 
 impl Transaction {
@@ -474,6 +477,7 @@ impl Transaction {
             write_set: Mutex::new(HashMap::with_capacity(8)),
             scan_predicates: Mutex::new(HashMap::new()),
             prev_lsn: RwLock::new(INVALID_LSN),
+            rollback_claimed: AtomicBool::new(false),
         }
     }
 
@@ -516,6 +520,14 @@ impl Transaction {
         *self.state.write() = state;
     }
 
+    /// Claims the right to undo this transaction's changes.
+    ///
+    /// # Returns
+    /// `true` for the first caller only.
+    pub fn claim_rollback(&self) -> bool {
+        !self.rollback_claimed.swap(true, Ordering::AcqRel)
+    }
+
     /// Returns the read timestamp (snapshot point for MVCC).
     pub fn read_ts(&self) -> Timestamp {
         *self.read_ts.read()
diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 5c33bdf..d8117f5 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -409,7 +409,7 @@ impl TransactionManager {
             let txn_map = self.state.txn_map.read();
             txn_map
                 .values()
-                .filter(|txn| txn.get_state() == TransactionState::Running)
+                .filter(|txn| txn.get_state() != TransactionState::Committed)
                 .cloned()
                 .collect::<Vec<_>>()
         };
@@ -453,17 +453,17 @@ impl TransactionManager {
         // Explicitly set state to Running
         txn.set_state(TransactionState::Running);
 
-        // Update transaction map and running transactions atomically
+        // Get and set read timestamp using watermark. The two locks are never held together: a committing
+        // transaction keeps `running_txns` while it publishes its rows.
         {
-            let mut txn_map = self.state.txn_map.write();
             let mut running_txns = self.state.running_txns.write();
-
-            // Get and set read timestamp using watermark
             let read_ts = running_txns.get_next_ts_and_register();
             txn.set_read_ts(read_ts);
-
-            txn_map.insert(txn_id, Arc::clone(&txn));
         }
+        self.state
+            .txn_map
+            .write()
+            .insert(txn_id, Arc::clone(&txn));
 
         Ok(txn)
     }
@@ -512,16 +512,14 @@ impl TransactionManager {
             },
         }
 
-        // Use logical watermark-based commit to set commit_ts and update running set
-        {
-            let mut running_txns = self.state.running_txns.write();
-            txn.commit(&mut running_txns);
-        }
-
-        // Update transaction map after commit
-        {
-            let mut txn_map = self.state.txn_map.write();
-            txn_map.insert(txn.get_transaction_id(), txn.clone());
+        // Use logical watermark-based commit to set commit_ts and update running set. The lock is kept until every
+        // row carries the commit timestamp: a transaction that begins meanwhile would otherwise see some of the rows
+        // as of before the commit and some as of after it.
+        let mut running_txns = self.state.running_txns.write();
+        txn.commit(&mut running_txns);
+        if txn.get_state() != TransactionState::Committed {
+            // aborted since the check above
+            return false;
         }
 
         // Mark all tuples written by this transaction as committed by setting their commit timestamps
@@ -529,9 +527,10 @@ impl TransactionManager {
         for (table_oid, rid) in txn.get_write_set() {
             // Locate the transactional table heap for this table
             if let Some(table_heap) = self.get_table_heap(table_oid) {
+                let heap = table_heap.get_table_heap();
+                let _version_guard = heap.version_latch.write();
                 // Fetch the page directly to allow updating metadata even for deleted tuples
-                if let Some(page_guard) = table_heap
-                    .get_table_heap()
+                if let Some(page_guard) = heap
                     .get_bpm()
                     .fetch_page::<TablePage>(rid.get_page_id())
                 {
@@ -573,6 +572,8 @@ impl TransactionManager {
             }
         }
 
+        drop(running_txns);
+
         // Attempt to drop completed transactions once no active reader needs them.
         self.prune_completed_transactions();
 
@@ -592,31 +593,27 @@ impl TransactionManager {
             "Starting abort for transaction {}",
             txn.get_transaction_id()
         );
-        let current_state = txn.get_state();
-        match current_state {
-            TransactionState::Running
-            | TransactionState::Tainted
-            | TransactionState::Shrinking
-            | TransactionState::Growing => {
-                // Proceed with abort
-            },
-            TransactionState::Committed => {
+        {
+            // Claim the rollback under the same lock that commit uses, so that exactly one of them happens. The lock
+            // manager may have marked the transaction aborted already; its changes still have to be undone.
+            let _running_txns = self.state.running_txns.write();
+            if txn.get_state() == TransactionState::Committed {
                 log::warn!(
                     "ABORT: txn {} already committed, nothing to do",
                     txn.txn_id_human_readable()
                 );
                 return;
-            },
-            TransactionState::Aborted => {
+            }
+            if !txn.claim_rollback() {
                 log::warn!(
-                    "ABORT: txn {} already aborted, skipping second abort",
+                    "ABORT: txn {} already rolled back, skipping second abort",
                     txn.txn_id_human_readable()
                 );
                 return;
-            },
+            }
+            txn.set_state(TransactionState::Aborted);
         }
 
-        // Get all modified tuples from write set
         let write_set = txn.get_write_set();
 
         // Roll back changes using undo logs
@@ -637,173 +634,81 @@ impl TransactionManager {
                 rid
             );
             if let Some(table_heap) = self.get_table_heap(table_oid) {
-                log::debug!("ABORT: Found table heap for table_oid={}", table_oid);
-                if let Some(undo_link) = self.get_undo_link(rid) {
-                    log::debug!(
-                        "ABORT: Found undo link for RID {:?}: prev_txn={}, prev_log_idx={}",
-                        rid,
-                        undo_link.prev_txn,
-                        undo_link.prev_log_idx
-                    );
-                    log::debug!(
-                        "Found undo link for RID {:?}: prev_txn={}, prev_log_idx={}",
-                        rid,
-                        undo_link.prev_txn,
-                        undo_link.prev_log_idx
-                    );
-                    // Get the undo log
-                    let undo_log = match self.get_undo_log(undo_link.clone()) {
-                        Ok(log) => log,
-                        Err(e) => {
-                            log::error!(
-                                "ABORT: Undo log not found for RID {:?} (txn={}, idx={}): {}",
-                                rid,
-                                undo_link.prev_txn,
-                                undo_link.prev_log_idx,
-                                e
-                            );
-                            continue;
-                        },
-                    };
-
-                    // Check if this was a deleted tuple that needs to be restored
-                    // If the original_rid is present, it means this was a delete operation
-                    if let Some(original_rid) = undo_log.original_rid {
-                        log::debug!(
-                            "ABORT: Restoring deleted tuple with original RID {:?}",
-                            original_rid
-                        );
+                self.rollback_row(&txn, table_heap.get_table_heap().as_ref(), rid);
+            }
+        }
 
-                        // Create metadata for the restored tuple
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
-                        if undo_log.ts == INVALID_TS {
-                            meta.set_commit_timestamp_opt(None);
-                        } else {
-                            meta.set_commit_timestamp(undo_log.ts);
-                        }
-                        meta.set_deleted(false); // Explicitly set to false for restored tuples
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during restore: {}", e))
-                            .unwrap();
-
-                        // For deleted tuples, we need a different approach
-                        // First get the page directly to bypass the deletion check
-                        if let Some(page_guard) = table_heap
-                            .get_table_heap()
-                            .get_bpm()
-                            .fetch_page::<TablePage>(original_rid.get_page_id())
-                        {
-                            // First update the metadata to unmark the deletion
-                            {
-                                let mut page = page_guard.write();
-                                if let Err(e) = page.update_tuple_meta(meta, &original_rid) {
-                                    log::error!(
-                                        "Failed to update tuple metadata during restore: {}",
-                                        e
-                                    );
-                                    continue;
-                                }
-                                log::debug!(
-                                    "Successfully updated tuple metadata to unmark deletion"
-                                );
-                            }
+        self.state
+            .txn_map
+            .write()
+            .insert(txn.get_transaction_id(), txn.clone());
+        self.state.running_txns.write().remove_txn(txn.read_ts());
 
-                            // Now that the tuple is no longer marked as deleted, we can restore its data
-                            if let Err(e) = table_heap.rollback_tuple(
-                                Arc::from(meta),
-                                &undo_log.tuple,
-                                original_rid,
-                            ) {
-                                log::error!("Failed to restore deleted tuple data: {}", e);
-                            } else {
-                                log::debug!(
-                                    "Successfully restored deleted tuple at RID {:?}",
-                                    original_rid
-                                );
-                            }
-                        } else {
-                            log::error!(
-                                "Failed to fetch page for deleted tuple restoration: page_id={}",
-                                original_rid.get_page_id()
-                            );
-                        }
-                    } else {
-                        // Regular update rollback
-                        // Restore the previous version
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
-                        if undo_log.ts == INVALID_TS {
-                            meta.set_commit_timestamp_opt(None);
-                        } else {
-                            meta.set_commit_timestamp(undo_log.ts);
-                        }
-                        meta.set_deleted(undo_log.is_deleted);
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during rollback: {}", e))
-                            .unwrap();
+        // Prune completed/aborted transactions when safe.
+        self.prune_completed_transactions();
+    }
 
-                        // Use a reference to the Arc<Tuple> without cloning
-                        log::debug!(
-                            "Rolling back tuple at RID {:?} with data: {:?}",
-                            rid,
-                            undo_log.tuple
-                        );
-                        if let Err(e) =
-                            table_heap.rollback_tuple(Arc::from(meta), &undo_log.tuple, rid)
-                        {
-                            log::error!("Failed to rollback tuple: {}", e);
-                        } else {
-                            log::debug!("Successfully rolled back tuple at RID {:?}", rid);
-                        }
-                    }
+    /// Puts a row back to the version it had before `txn` first wrote it, or deletes it if `txn` inserted it.
+    fn rollback_row(&self, txn: &Transaction, heap: &TableHeap, rid: RID) {
+        let txn_id = txn.get_transaction_id();
+        let _version_guard = heap.version_latch.write();
 
-                    // Update the undo link to point to the previous version
-                    let prev_version_link = if undo_log.prev_version.is_valid() {
-                        Some(undo_log.prev_version.clone())
-                    } else {
-                        None
-                    };
-                    self.update_undo_link(rid, prev_version_link, None);
-                } else {
-                    log::debug!(
-                        "ABORT: No undo link found for RID {:?} - marking as deleted",
-                        rid
-                    );
-                    // If no undo link exists, this was a newly inserted tuple
-                    // Mark it as deleted since it was part of an aborted transaction
-                    let mut meta = TupleMeta::new(txn.get_transaction_id());
-                    meta.set_deleted(true);
-                    // Uncommitted/aborted versions should not have a commit timestamp.
-                    meta.set_commit_timestamp_opt(None);
-
-                    // Update the tuple metadata to mark it as deleted
-                    if let Some(page_guard) = table_heap
-                        .get_table_heap()
-                        .get_bpm()
-                        .fetch_page::<TablePage>(rid.get_page_id())
-                    {
-                        let mut page = page_guard.write();
-                        if let Ok((_, _)) = page.get_tuple(&rid, true)
-                            && let Err(e) = page.update_tuple_meta(meta, &rid)
-                        {
-                            log::error!("Failed to mark tuple as deleted: {}", e);
-                        }
-                    }
-                }
-            }
+        let meta = match heap.get_tuple_internal(rid, true) {
+            Ok((meta, _)) => meta,
+            Err(e) => {
+                log::error!("ABORT: cannot read RID {:?}: {}", rid, e);
+                return;
+            },
+        };
+        if meta.get_creator_txn_id() != txn_id || meta.is_committed() {
+            return;
         }
 
-        // Update transaction state and remove from running transactions
-        {
-            let mut txn_map = self.state.txn_map.write();
-            let mut running_txns = self.state.running_txns.write();
+        // Walk back over this transaction's own versions.
+        let mut own_log_idx = meta.try_get_undo_log_idx_opt().ok().flatten();
+        while let Some(idx) = own_log_idx {
+            let undo_log = match self.get_undo_log(UndoLink::new(txn_id, idx)) {
+                Ok(log) => log,
+                Err(e) => {
+                    log::error!("ABORT: Undo log not found for RID {:?}: {}", rid, e);
+                    return;
+                },
+            };
+            let prev = undo_log.prev_version.clone();
+            if undo_log.ts == INVALID_TS && prev.prev_txn == txn_id {
+                own_log_idx = prev.is_valid().then_some(prev.prev_log_idx);
+                continue;
+            }
 
-            running_txns.remove_txn(txn.read_ts());
-            txn.set_state(TransactionState::Aborted);
-            txn_map.insert(txn.get_transaction_id(), txn.clone());
+            // The version some other transaction left: restore it exactly as it was.
+            let mut restored = TupleMeta::new(prev.prev_txn);
+            if undo_log.ts != INVALID_TS {
+                restored.set_commit_timestamp(undo_log.ts);
+            }
+            if prev.is_valid()
+                && let Err(e) = restored.set_undo_log_idx(prev.prev_log_idx)
+            {
+                log::error!("ABORT: Invalid undo log index for RID {:?}: {}", rid, e);
+            }
+            if let Err(e) = heap.update_tuple_internal(Arc::new(restored), &undo_log.tuple, rid) {
+                log::error!("ABORT: Failed to restore RID {:?}: {}", rid, e);
+            }
+            self.update_undo_link(rid, prev.is_valid().then_some(prev), None);
+            return;
         }
 
-        // Prune completed/aborted transactions when safe.
-        self.prune_completed_transactions();
+        // No earlier version: this transaction inserted the row.
+        let mut deleted = TupleMeta::new(txn_id);
+        deleted.set_deleted(true);
+        match heap.get_page(rid.get_page_id()) {
+            Ok(page_guard) => {
+                if let Err(e) = page_guard.write().update_tuple_meta(deleted, &rid) {
+                    log::error!("Failed to mark tuple as deleted: {}", e);
+                }
+            },
+            Err(e) => log::error!("ABORT: {}", e),
+        }
+        self.update_undo_link(rid, None, None);
     }
 
     /// Performs garbage collection of old tuple versions.
@@ -817,7 +722,7 @@ impl TransactionManager {
     ///
     /// 1. Get the current watermark.
     /// 2. For each page's version info, remove undo links pointing to
-    ///    transactions with timestamps below the watermark.
+    ///    transactions that committed at or below the watermark.
     /// 3. Remove empty page version info entries.
     /// 4. Prune completed transactions that are no longer needed.
     pub fn garbage_collection(&self) {
@@ -826,12 +731,16 @@ impl TransactionManager {
 
         // Remove version info for pages that are no longer needed
         version_info.retain(|_, page_info| {
-            // Retain only links that point to transactions newer than watermark
+            // Drop a link only when no reader can need the older versions behind it: the transaction that wrote the
+            // latest version committed at or before the watermark (or was pruned). Unfinished transactions still
+            // need theirs to roll back.
             page_info.prev_link.write().retain(|_, link| {
-                if let Some(txn) = self.state.txn_map.read().get(&link.prev_txn) {
-                    txn.read_ts() > watermark
-                } else {
-                    false
+                match self.state.txn_map.read().get(&link.prev_txn) {
+                    Some(txn) => {
+                        txn.get_state() != TransactionState::Committed
+                            || txn.commit_ts() > watermark
+                    },
+                    None => false,
                 }
             });
             !page_info.prev_link.read().is_empty()
diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 58c5cb0..5c9f704 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -231,11 +231,13 @@ use parking_lot::RwLock;
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::catalog::schema::Schema;
-use crate::common::config::{INVALID_PAGE_ID, INVALID_TXN_ID, PageId, TableOidT};
+use crate::common::config::{
+    INVALID_PAGE_ID, INVALID_TS, INVALID_TXN_ID, PageId, TableOidT, Timestamp,
+};
 use crate::common::exception::PageError;
 use crate::common::rid::RID;
 use crate::concurrency::lock_manager::LockManager;
-use crate::concurrency::transaction::{IsolationLevel, UndoLink, UndoLog};
+use crate::concurrency::transaction::{IsolationLevel, Transaction, UndoLink, UndoLog};
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::sql::execution::transaction_context::TransactionContext;
 use crate::storage::page::page_guard::PageGuard;
@@ -275,6 +277,9 @@ pub struct TableHeap {
     last_page_id: RwLock<PageId>,
     table_oid: TableOidT,
     pub latch: RwLock<()>,
+    /// Held (shared) while a row's version chain is read from the top down, and exclusively while one is changed.
+    /// Taken before `latch` and before any page lock.
+    pub version_latch: RwLock<()>,
 }
 
 /// The TableInfo struct maintains metadata about a table.
@@ -319,6 +324,7 @@ impl TableHeap {
             last_page_id: RwLock::new(INVALID_PAGE_ID),
             table_oid,
             latch: RwLock::new(()),
+            version_latch: RwLock::new(()),
         };
 
         // Try to create the first page - if this fails, the table will be empty
@@ -366,6 +372,7 @@ impl TableHeap {
             last_page_id: RwLock::new(resolved_last),
             table_oid,
             latch: RwLock::new(()),
+            version_latch: RwLock::new(()),
         }
     }
 
@@ -573,145 +580,65 @@ impl TableHeap {
         txn_ctx: Arc<TransactionContext>,
     ) -> Result<(Arc<TupleMeta>, Arc<Tuple>), String> {
         let txn = txn_ctx.get_transaction();
+        let txn_manager = txn_ctx.get_transaction_manager();
+        self.get_visible_version(rid, txn.as_ref(), txn_manager.as_ref())
+    }
+
+    /// Finds the version of a row that the transaction's isolation level lets it see.
+    pub(crate) fn get_visible_version(
+        &self,
+        rid: RID,
+        txn: &Transaction,
+        txn_manager: &TransactionManager,
+    ) -> Result<(Arc<TupleMeta>, Arc<Tuple>), String> {
         let txn_id = txn.get_transaction_id();
+        let _version_guard = self.version_latch.read();
 
-        // First get the latest version
-        let page_guard = self.get_page(rid.get_page_id())?;
-        let page = page_guard.read();
         // Important: allow reading deleted tuples so MVCC can interpret tombstones
         // (and potentially return older versions for older snapshots).
-        let (meta, tuple) = page.get_tuple(&rid, true)?;
-
-        // Always allow transaction to see its own changes
-        if meta.get_creator_txn_id() == txn_id {
-            return if meta.is_deleted() {
-                Err("Tuple is deleted".to_string())
-            } else {
-                Ok((Arc::new(meta), Arc::new(tuple)))
-            };
-        }
+        let (mut meta, mut tuple) = self.get_tuple_internal(rid, true)?;
 
-        match txn.get_isolation_level() {
+        let read_ts = match txn.get_isolation_level() {
             IsolationLevel::ReadUncommitted => {
-                // For READ_UNCOMMITTED, return the latest version
-                if meta.is_deleted() {
+                return if meta.is_deleted() {
                     Err("Tuple is deleted".to_string())
                 } else {
-                    Ok((Arc::new(meta), Arc::new(tuple)))
-                }
-            },
-
-            IsolationLevel::ReadCommitted => {
-                // For READ_COMMITTED, only return committed versions
-                if meta.is_committed() {
-                    if meta.is_deleted() {
-                        Err("Tuple is deleted".to_string())
-                    } else {
-                        Ok((Arc::new(meta), Arc::new(tuple)))
-                    }
-                }
-                // If the latest version is uncommitted (update/delete) by another txn,
-                // walk the version chain to find the latest committed version.
-                else {
-                    let txn_manager = txn_ctx.get_transaction_manager();
-                    let current_link = txn_manager.get_undo_link(rid);
-
-                    if let Some(ref undo_link) = current_link {
-                        let undo_log = match txn_manager.get_undo_log(undo_link.clone()) {
-                            Ok(log) => log,
-                            Err(e) => return Err(format!("Undo log missing: {}", e)),
-                        };
-
-                        let mut prev_meta = TupleMeta::new(undo_log.prev_version.prev_txn);
-                        prev_meta.set_commit_timestamp(undo_log.ts);
-                        let prev_deleted = if undo_log.original_rid.is_some() {
-                            // Delete undo logs store the pre-delete version; treat it as live.
-                            false
-                        } else {
-                            undo_log.is_deleted
-                        };
-                        prev_meta.set_deleted(prev_deleted);
-                        if undo_log.prev_version.is_valid() {
-                            prev_meta
-                                .set_undo_log_idx(undo_log.prev_version.prev_log_idx)
-                                .map_err(|e| e.to_string())?;
-                        } else {
-                            prev_meta.clear_undo_log_idx();
-                        }
-
-                        if prev_meta.is_deleted() {
-                            return Err("Tuple is deleted".to_string());
-                        }
-                        // First committed version in chain is what READ_COMMITTED should see.
-                        Ok((Arc::new(prev_meta), undo_log.tuple.clone()))
-                    } else {
-                        Err("No visible version found".to_string())
-                    }
-                }
+                    Ok((meta, tuple))
+                };
             },
+            // The latest committed version, however recent.
+            IsolationLevel::ReadCommitted => Timestamp::MAX,
+            _ => txn.read_ts(),
+        };
 
-            IsolationLevel::RepeatableRead | IsolationLevel::Serializable => {
-                let read_ts = txn.read_ts();
-                match meta.visibility_status(txn_id, read_ts) {
-                    TupleVisibility::Visible => return Ok((Arc::new(meta), Arc::new(tuple))),
-                    TupleVisibility::Deleted => return Err("Tuple is deleted".to_string()),
-                    TupleVisibility::Invisible => { /* continue into version chain */ },
-                }
-
-                // If the latest version isn't visible, check the version chain
-                let txn_manager = txn_ctx.get_transaction_manager();
-                let mut current_link = txn_manager.get_undo_link(rid);
-
-                while let Some(ref undo_link) = current_link {
-                    let undo_log = match txn_manager.get_undo_log(undo_link.clone()) {
-                        Ok(log) => log,
-                        Err(e) => return Err(format!("Undo log missing: {}", e)),
-                    };
-
-                    let mut prev_meta = TupleMeta::new(undo_log.prev_version.prev_txn);
-                    prev_meta.set_commit_timestamp(undo_log.ts);
-                    let prev_deleted = if undo_log.original_rid.is_some() {
-                        // Delete undo logs store the pre-delete version; treat it as live.
-                        false
-                    } else {
-                        undo_log.is_deleted
-                    };
-                    prev_meta.set_deleted(prev_deleted);
-                    if undo_log.prev_version.is_valid() {
-                        prev_meta
-                            .set_undo_log_idx(undo_log.prev_version.prev_log_idx)
-                            .map_err(|e| e.to_string())?;
-                    } else {
-                        prev_meta.clear_undo_log_idx();
-                    }
-
-                    match prev_meta.visibility_status(txn_id, read_ts) {
-                        TupleVisibility::Visible => {
-                            return Ok((Arc::new(prev_meta), undo_log.tuple.clone()));
-                        },
-                        TupleVisibility::Deleted => return Err("Tuple is deleted".to_string()),
-                        TupleVisibility::Invisible => { /* keep walking */ },
-                    }
-
-                    current_link = if undo_log.prev_version.is_valid() {
-                        Some(undo_log.prev_version.clone())
-                    } else {
-                        None
-                    };
-                }
+        let mut next_link = txn_manager.get_undo_link(rid);
+        loop {
+            match meta.visibility_status(txn_id, read_ts) {
+                TupleVisibility::Visible => return Ok((meta, tuple)),
+                TupleVisibility::Deleted => return Err("Tuple is deleted".to_string()),
+                TupleVisibility::Invisible => { /* keep walking */ },
+            }
 
-                Err("No visible version found".to_string())
-            },
+            let undo_log = next_link
+                .take()
+                .and_then(|link| txn_manager.get_undo_log_optional(link))
+                .ok_or_else(|| "No visible version found".to_string())?;
 
-            IsolationLevel::Snapshot => {
-                // For SNAPSHOT, assume similar behavior to SERIALIZABLE for now
-                // This may involve checking for a consistent snapshot version
-                if meta.is_deleted() {
-                    Err("Tuple is deleted".to_string())
-                } else {
-                    Ok((Arc::new(meta), Arc::new(tuple)))
-                }
-            },
+            let prev = undo_log.prev_version.clone();
+            let mut prev_meta = TupleMeta::new(prev.prev_txn);
+            if undo_log.ts != INVALID_TS {
+                prev_meta.set_commit_timestamp(undo_log.ts);
+            }
+            // Undo logs with an original RID store the version before a delete or update; it was live.
+            prev_meta.set_deleted(undo_log.original_rid.is_none() && undo_log.is_deleted);
+            if prev.is_valid() {
+                prev_meta
+                    .set_undo_log_idx(prev.prev_log_idx)
+                    .map_err(|e| format!("Invalid undo log index in version chain: {}", e))?;
+                next_link = Some(prev);
+            }
+            meta = Arc::new(prev_meta);
+            tuple = undo_log.tuple.clone();
         }
     }
 
@@ -1623,6 +1550,7 @@ impl Clone for TableHeap {
             last_page_id: RwLock::new(*self.last_page_id.read()),
             table_oid: self.table_oid,
             latch: RwLock::new(()),
+            version_latch: RwLock::new(()),
         }
     }
 }
diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index d351da1..b58c35d 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -253,20 +253,21 @@
 
 use std::sync::Arc;
 
-use log::{debug, info, warn};
+use log::{debug, info};
 
 use crate::catalog::schema::Schema;
 use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT};
 use crate::common::rid::RID;
 use crate::concurrency::lock_manager::LockMode;
-use crate::concurrency::transaction::{
-    IsolationLevel, Transaction, TransactionState, UndoLink, UndoLog,
-};
+#[cfg(test)]
+use crate::concurrency::transaction::{IsolationLevel, Transaction};
+use crate::concurrency::transaction::{TransactionState, UndoLink, UndoLog};
+#[cfg(test)]
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::sql::execution::transaction_context::TransactionContext;
 use crate::storage::table::table_heap::TableHeap;
 use crate::storage::table::table_iterator::TableIterator;
-use crate::storage::table::tuple::{Tuple, TupleMeta, TupleVisibility};
+use crate::storage::table::tuple::{Tuple, TupleMeta};
 use crate::types_db::value::Value;
 
 #[derive(Debug, Clone)]
@@ -445,40 +446,13 @@ impl TransactionalTableHeap {
     ) -> Result<(Arc<TupleMeta>, Arc<Tuple>), String> {
         let txn = txn_ctx.get_transaction();
         let txn_manager = txn_ctx.get_transaction_manager();
-
-        // Get latest version
-        // Important: allow reading deleted tuples so MVCC can interpret tombstones.
-        let (meta, tuple) = self.table_heap.get_tuple_internal(rid, true)?;
-
-        // Handle visibility based on isolation level
-        match txn.get_isolation_level() {
-            IsolationLevel::ReadUncommitted => {
-                if meta.is_deleted() {
-                    Err("Tuple is deleted".to_string())
-                } else {
-                    Ok((meta, tuple))
-                }
-            },
-            IsolationLevel::ReadCommitted => {
-                if meta.get_creator_txn_id() == txn.get_transaction_id() || meta.is_committed() {
-                    if meta.is_deleted() {
-                        Err("Tuple is deleted".to_string())
-                    } else {
-                        Ok((meta, tuple))
-                    }
-                } else {
-                    // Head version is uncommitted by another transaction; walk the chain
-                    // to find the latest committed version that is visible.
-                    self.get_visible_version(rid, txn, txn_manager, meta, tuple)
-                }
-            },
-            _ => self.get_visible_version(rid, txn, txn_manager, meta, tuple),
-        }
+        self.table_heap
+            .get_visible_version(rid, txn.as_ref(), txn_manager.as_ref())
     }
 
     pub fn update_tuple(
         &self,
-        meta: &TupleMeta,
+        _meta: &TupleMeta,
         tuple: &Tuple,
         rid: RID,
         txn_ctx: Arc<TransactionContext>,
@@ -490,11 +464,14 @@ impl TransactionalTableHeap {
             return Err("Transaction not in running state".to_string());
         }
 
+        // The check and the write below are one step as far as other writers and readers are concerned.
+        let _version_guard = self.table_heap.version_latch.write();
+
         // Get current version for visibility check
         let (current_meta, current_tuple) = self.table_heap.get_tuple_internal(rid, false)?;
 
         // Visibility checks
-        if current_meta.get_creator_txn_id() != meta.get_creator_txn_id()
+        if current_meta.get_creator_txn_id() != txn.get_transaction_id()
             && !current_meta.is_committed()
         {
             return Err("Cannot update uncommitted tuple from another transaction".to_string());
@@ -554,9 +531,6 @@ impl TransactionalTableHeap {
             current_meta.get_undo_log_idx_raw_opt()
         );
 
-        // Update the undo link to point to the current version
-        txn_manager.update_undo_link(rid, Some(undo_link), None);
-
         // Create new meta with current transaction as creator
         let mut new_meta = TupleMeta::new(txn.get_transaction_id());
         // Uncommitted versions should not have a commit timestamp.
@@ -572,147 +546,16 @@ impl TransactionalTableHeap {
             new_meta.get_commit_timestamp()
         );
 
-        // Perform update
+        // Perform update; a refused one must leave the version chain alone
         let result = self
             .table_heap
             .update_tuple_internal(Arc::from(new_meta), tuple, rid)?;
+        txn_manager.update_undo_link(rid, Some(undo_link), None);
         txn.append_write_set(self.table_oid, rid);
 
         Ok(result)
     }
 
-    // Helper method for REPEATABLE_READ and SERIALIZABLE
-    fn get_visible_version(
-        &self,
-        rid: RID,
-        txn: Arc<Transaction>,
-        txn_manager: Arc<TransactionManager>,
-        meta: Arc<TupleMeta>,
-        tuple: Arc<Tuple>,
-    ) -> Result<(Arc<TupleMeta>, Arc<Tuple>), String> {
-        let txn_id = txn.get_transaction_id();
-        let read_ts = txn.read_ts();
-        log::debug!(
-            "Starting version chain traversal for RID {:?} - Latest version: creator_txn={}, commit_ts={:?}, deleted={}, txn_id={}, read_ts={}",
-            rid,
-            meta.get_creator_txn_id(),
-            meta.get_commit_timestamp(),
-            meta.is_deleted(),
-            txn_id,
-            read_ts
-        );
-
-        // First check if latest version is applicable/visible at this snapshot.
-        match meta.visibility_status(txn_id, read_ts) {
-            TupleVisibility::Visible => {
-                log::debug!("Latest version is visible, returning it");
-                return Ok((meta, tuple));
-            },
-            TupleVisibility::Deleted => {
-                log::debug!("Latest version is a visible tombstone; row is absent");
-                return Err("Tuple is deleted".to_string());
-            },
-            TupleVisibility::Invisible => { /* walk the chain */ },
-        }
-
-        // If the latest version isn't visible, check a version chain
-        let mut current_link = txn_manager.get_undo_link(rid);
-
-        log::debug!(
-            "Latest version not visible, starting chain traversal. Initial undo link: {:?}",
-            current_link
-        );
-
-        while let Some(ref undo_link) = current_link {
-            log::debug!(
-                "Examining version: prev_txn={}, prev_log_idx={}, txn_id={}",
-                undo_link.prev_txn,
-                undo_link.prev_log_idx,
-                txn.get_transaction_id()
-            );
-
-            // Attempt to fetch the undo log; if missing, stop traversal
-            let undo_log = if let Some(log) = txn_manager.get_undo_log_optional(undo_link.clone()) {
-                log
-            } else {
-                warn!(
-                    "Missing undo log for link: txn={}, idx={}; stopping traversal",
-                    undo_link.prev_txn, undo_link.prev_log_idx
-                );
-                current_link = None;
-                continue;
-            };
-            let undo_log_clone = undo_log.clone();
-            log::debug!(
-                "Retrieved undo log: ts={}, is_deleted={}, prev_version: txn={}, idx={}",
-                undo_log.ts,
-                undo_log.is_deleted,
-                undo_log.prev_version.prev_txn,
-                undo_log.prev_version.prev_log_idx
-            );
-
-            // Create metadata for previous version using the undo log's prev_version
-            let mut prev_meta = TupleMeta::new(undo_log.prev_version.prev_txn);
-            if undo_log.ts == INVALID_TS {
-                prev_meta.set_commit_timestamp_opt(None);
-            } else {
-                prev_meta.set_commit_timestamp(undo_log.ts);
-            }
-            let prev_deleted = if undo_log.original_rid.is_some() {
-                // Delete undo logs store the pre-delete version; treat it as live.
-                false
-            } else {
-                undo_log.is_deleted
-            };
-            prev_meta.set_deleted(prev_deleted);
-            if undo_log.prev_version.is_valid() {
-                prev_meta
-                    .set_undo_log_idx(undo_log.prev_version.prev_log_idx)
-                    .map_err(|e| format!("Invalid undo log index in version chain: {}", e))?;
-            } else {
-                prev_meta.clear_undo_log_idx();
-            }
-
-            log::debug!(
-                "Created previous version metadata: creator_txn={}, commit_ts={:?}, deleted={}, undo_idx={:?}",
-                prev_meta.get_creator_txn_id(),
-                prev_meta.get_commit_timestamp(),
-                prev_meta.is_deleted(),
-                prev_meta.get_undo_log_idx_raw_opt()
-            );
-
-            // Update current version
-            let current_meta = Arc::from(prev_meta);
-            let current_tuple = undo_log.tuple.clone();
-
-            match current_meta.visibility_status(txn_id, read_ts) {
-                TupleVisibility::Visible => {
-                    log::debug!(
-                        "Found visible version: creator_txn={}, commit_ts={:?}",
-                        current_meta.get_creator_txn_id(),
-                        current_meta.get_commit_timestamp()
-                    );
-                    return Ok((current_meta, current_tuple));
-                },
-                TupleVisibility::Deleted => {
-                    log::debug!("Found visible tombstone in chain; row is absent");
-                    return Err("Tuple is deleted".to_string());
-                },
-                TupleVisibility::Invisible => { /* keep walking */ },
-            }
-
-            // Move to next version in chain using the undo log's prev_version
-            current_link = if undo_log.prev_version.is_valid() {
-                Some(undo_log_clone.prev_version.clone())
-            } else {
-                None
-            };
-        }
-
-        log::debug!("No visible version found in chain");
-        Err("No visible version found".to_string())
-    }
-
     pub fn make_iterator(&self, txn_ctx: Option<Arc<TransactionContext>>) -> TableIterator {
         let first_page_id = self.table_heap.get_first_page_id();
 
@@ -747,6 +590,9 @@ impl TransactionalTableHeap {
         // lock_manager.lock_table(txn.clone(), LockMode::IntentionExclusive, self.table_oid)
         //     .map_err(|e| format!("Failed to acquire table lock: {}", e))?;
 
+        // The check and the write below are one step as far as other writers and readers are concerned.
+        let _version_guard = self.table_heap.version_latch.write();
+
         // Get the current version for visibility check
         let (current_meta, current_tuple) = self.table_heap.get_tuple_internal(rid, false)?;
 
@@ -799,9 +645,6 @@ impl TransactionalTableHeap {
             undo_link.prev_log_idx
         );
 
-        // Update version chain
-        txn_manager.update_undo_link(rid, Some(undo_link), None);
-
         // Create new meta with current transaction as creator
         let mut new_meta = TupleMeta::new(txn.get_transaction_id());
         new_meta.set_deleted(true); // Mark as deleted
@@ -821,6 +664,7 @@ impl TransactionalTableHeap {
         // Update the tuple with deleted metadata
         self.table_heap
             .update_tuple_internal(Arc::from(new_meta), &current_tuple, rid)?;
+        txn_manager.update_undo_link(rid, Some(undo_link), None);
         txn.append_write_set(self.table_oid, rid);
 
         Ok(())
-- 
2.43.0


From 0475eec2a07d3830cf0efe9ec90c011c68c6ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 16/56] fix: a reopened database must not hand out page ids
 that are already in use

New pages were numbered from zero after a restart, overwriting existing pages.
recreate_page lets recovery materialise a page that never reached the disk.
---
 src/buffer/buffer_pool_manager_async.rs | 34 ++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 95c97f1..6ad9497 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -320,6 +320,10 @@ impl BufferPoolManager {
     ) -> Result<Self, String> {
         let free_list: Vec<FrameId> = (0..pool_size as FrameId).collect();
 
+        // An existing database keeps its pages: new ones come after them.
+        let db_file_size = futures::executor::block_on(disk_manager.get_db_file_size())
+            .map_err(|e| format!("Failed to read database file size: {}", e))?;
+
         info!(
             "BufferPoolManager initialized with pool size: {}, disk manager health: {}, cache coordination: {}",
             pool_size,
@@ -329,7 +333,7 @@ impl BufferPoolManager {
 
         Ok(Self {
             pool_size,
-            next_page_id: AtomicU64::new(0),
+            next_page_id: AtomicU64::new(db_file_size.div_ceil(DB_PAGE_SIZE)),
             pages: Arc::new(RwLock::new(vec![None; pool_size])),
             page_table: Arc::new(RwLock::new(HashMap::new())),
             replacer,
@@ -444,6 +448,34 @@ impl BufferPoolManager {
         ))
     }
 
+    /// Brings back page `page_id` as an empty page, for a page that was allocated
+    /// before a crash and never reached the disk.
+    ///
+    /// # Returns
+    /// The pinned page, or `None` if the page exists (in memory or on disk) or no
+    /// frame is available.
+    pub fn recreate_page<T: Page>(self: &Arc<Self>, page_id: PageId) -> Option<PageGuard<T>> {
+        if page_id == INVALID_PAGE_ID || self.page_table.read().contains_key(&page_id) {
+            return None;
+        }
+        if let Ok(data) = self.load_page_bypass_cache(page_id)
+            && data.iter().any(|byte| *byte != 0)
+        {
+            return None;
+        }
+
+        let frame_id = self.get_available_frame()?;
+        self.evict_page_if_necessary(frame_id);
+        self.next_page_id.fetch_max(page_id + 1, Ordering::SeqCst);
+
+        let page = self.create_typed_page::<T>(page_id);
+        self.update_page_metadata(frame_id, page_id, &page);
+
+        let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
+        let unpinner: Arc<dyn PageUnpinner> = unpinner;
+        Some(PageGuard::new_for_new_page(page, page_id, Some(unpinner)))
+    }
+
     /// Creates a new page with custom options using a provided constructor function.
     ///
     /// # Parameters
-- 
2.43.0


From 8276620c85b741edbf3661f24e12dbc9f7d5e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 17/56] fix: a damaged or torn log record must end the log
 scan, not be misread

Records carry a CRC-32; the scan stops at the first incomplete or damaged
record instead of resynchronising byte by byte inside it.
---
 src/recovery/log_iterator.rs | 76 ++++++++++++++++++------------------
 src/recovery/log_record.rs   | 42 ++++++++++++++++----
 2 files changed, 73 insertions(+), 45 deletions(-)

diff --git a/src/recovery/log_iterator.rs b/src/recovery/log_iterator.rs
index 0741fb8..8fd9a77 100644
--- a/src/recovery/log_iterator.rs
+++ b/src/recovery/log_iterator.rs
@@ -98,12 +98,12 @@
 //!
 //!   Case 2: Invalid size or parse error
 //!   ────────────────────────────────────
-//!   │ Advance by 1 byte and retry. This allows finding the next valid
-//!   │ record after partial corruption.
+//!   │ The tail is torn or damaged: stop here. Nothing after the damage can be
+//!   │ trusted, and guessing at a record boundary could invent records.
 //!   │
-//!   │ current_offset += 1
+//!   │ reached_eof = true
 //!
-//!   Maximum attempts: 100 before giving up
+//!   Maximum padding blocks: 100 before giving up
 //! ```
 //!
 //! ## Key Components
@@ -243,7 +243,7 @@ pub struct LogIterator {
 ///
 /// `true` if the error indicates EOF, `false` otherwise.
 #[inline]
-fn is_eof_error(e: &std::io::Error) -> bool {
+pub(super) fn is_eof_error(e: &std::io::Error) -> bool {
     e.kind() == std::io::ErrorKind::UnexpectedEof || e.to_string().to_lowercase().contains("eof")
 }
 
@@ -291,7 +291,7 @@ impl LogIterator {
             return None;
         }
 
-        // Maximum number of attempts to find a valid record (for corruption resync).
+        // Maximum number of padding blocks skipped while looking for a record.
         let max_attempts = 100;
         let mut attempts = 0;
 
@@ -315,25 +315,26 @@ impl LogIterator {
 
                     // Basic validation.
                     if record_size <= 0 || record_size > 1_000_000 {
-                        warn!(
-                            "Invalid record size at offset {}: size={}, skipping",
-                            self.current_offset, record_size
-                        );
-
                         // Resync strategy:
                         // - WAL is OS-buffered and uses *logical* byte offsets (no required alignment).
                         // - However, older/alternative WAL layouts may be padded with zero-filled
                         //   DB-sized blocks. If we see an all-zero size header, treat it as padding
                         //   and skip to the next DB_PAGE_SIZE boundary for faster recovery.
-                        if header_bytes.as_slice() == [0u8; 4] {
-                            let page = DB_PAGE_SIZE;
-                            self.current_offset = ((self.current_offset / page) + 1) * page;
-                        } else {
-                            self.current_offset += 1;
+                        //   Anything else is a damaged tail: nothing after it can be trusted.
+                        let next_page = (offset / DB_PAGE_SIZE + 1) * DB_PAGE_SIZE;
+                        if header_bytes.as_slice() == [0u8; 4]
+                            && self.is_zero_filled(offset, next_page).await
+                        {
+                            self.current_offset = next_page;
+                            attempts += 1;
+                            continue;
                         }
-
-                        attempts += 1;
-                        continue;
+                        warn!(
+                            "Invalid record size at offset {}: size={}, stopping",
+                            offset, record_size
+                        );
+                        self.reached_eof = true;
+                        return None;
                     }
 
                     // Read the full record bytes (exact logical size).
@@ -348,14 +349,8 @@ impl LogIterator {
                                 "Failed to read full log record at offset {} (size={}): {}",
                                 self.current_offset, record_size, e
                             );
-                            if is_eof_error(&e) {
-                                self.reached_eof = true;
-                                return None;
-                            }
-
-                            self.current_offset += 1;
-                            attempts += 1;
-                            continue;
+                            self.reached_eof = true;
+                            return None;
                         },
                     };
 
@@ -367,10 +362,8 @@ impl LogIterator {
                                 "Failed to deserialize log record at offset {}: {}",
                                 self.current_offset, e
                             );
-
-                            self.current_offset += 1;
-                            attempts += 1;
-                            continue;
+                            self.reached_eof = true;
+                            return None;
                         },
                     };
 
@@ -382,8 +375,7 @@ impl LogIterator {
                             record_size,
                             record.get_log_record_type()
                         );
-                        self.current_offset += 1;
-                        attempts += 1;
+                        self.current_offset += record_size as u64;
                         continue;
                     }
 
@@ -413,10 +405,8 @@ impl LogIterator {
                         self.current_offset, e
                     );
 
-                    // Resync on error.
-                    self.current_offset += 1;
-                    attempts += 1;
-                    continue;
+                    self.reached_eof = true;
+                    return None;
                 },
             }
         }
@@ -431,6 +421,18 @@ impl LogIterator {
         None
     }
 
+    /// Whether the log bytes in `[start, end)` are all present and all zero.
+    async fn is_zero_filled(&self, start: u64, end: u64) -> bool {
+        match self
+            .disk_manager
+            .read_log_sized(start, (end - start) as usize)
+            .await
+        {
+            Ok(bytes) => bytes.iter().all(|b| *b == 0),
+            Err(_) => false,
+        }
+    }
+
     /// Resets the iterator to the beginning of the log file.
     pub fn reset(&mut self) {
         self.current_offset = 0;
diff --git a/src/recovery/log_record.rs b/src/recovery/log_record.rs
index dd0eb1f..83f63e3 100644
--- a/src/recovery/log_record.rs
+++ b/src/recovery/log_record.rs
@@ -294,13 +294,13 @@ impl LogRecord {
     /// If encoding fails (which should not happen for valid records), an error
     /// is logged and the current size is left unchanged.
     fn refresh_size_from_encoding(&mut self) {
-        // Compute the size matching `to_bytes()` output: 4-byte header + postcard payload.
+        // Compute the size matching `to_bytes()` output: header, postcard payload, checksum.
         // Postcard uses varint encoding, so changing `self.size` can change total length.
         // Iterate until stable.
         for _ in 0..5 {
             match postcard::to_allocvec(&*self) {
                 Ok(bytes) => {
-                    let new_size = (4 + bytes.len()) as i32;
+                    let new_size = (4 + bytes.len() + CHECKSUM_SIZE) as i32;
                     if new_size == self.size {
                         return;
                     }
@@ -592,9 +592,10 @@ impl LogRecord {
     /// Serializes the log record to bytes using postcard with a fixed 4-byte LE
     /// length header for WAL framing.
     ///
-    /// Wire format: `[total_len: u32 LE][postcard-encoded LogRecord]`
+    /// Wire format: `[total_len: u32 LE][postcard-encoded LogRecord][CRC-32: u32 LE]`
     ///
-    /// The length header includes itself (4 bytes) + the postcard payload,
+    /// The length header includes itself (4 bytes) + the postcard payload + the
+    /// checksum of both (so that a torn or damaged record is never misread),
     /// matching the convention that the first 4 bytes of the on-disk record
     /// encode the full record size so the WAL iterator can frame records.
     ///
@@ -602,17 +603,18 @@ impl LogRecord {
     /// A vector of bytes representing the serialized log record, or an error if serialization fails.
     pub fn to_bytes(&self) -> Result<Vec<u8>, postcard::Error> {
         let payload = postcard::to_allocvec(self)?;
-        let total_len = (4 + payload.len()) as u32;
+        let total_len = (4 + payload.len() + CHECKSUM_SIZE) as u32;
         let mut out = Vec::with_capacity(total_len as usize);
         out.extend_from_slice(&(total_len as i32).to_le_bytes());
         out.extend_from_slice(&payload);
+        out.extend_from_slice(&checksum(&out).to_le_bytes());
         Ok(out)
     }
 
     /// Deserializes a log record from bytes using postcard.
     ///
     /// Expects the format produced by [`to_bytes`](Self::to_bytes):
-    /// `[total_len: u32 LE][postcard payload]`.
+    /// `[total_len: u32 LE][postcard payload][CRC-32]`; bytes after it are ignored.
     ///
     /// # Parameters
     /// - `bytes`: The bytes to deserialize (including the 4-byte length header).
@@ -623,9 +625,33 @@ impl LogRecord {
         if bytes.len() < 4 {
             return Err(postcard::Error::DeserializeUnexpectedEnd);
         }
-        // Skip the 4-byte length header
-        postcard::from_bytes(&bytes[4..])
+        let total_len = i32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
+        let total_len = usize::try_from(total_len).unwrap_or(0);
+        if total_len < 4 + CHECKSUM_SIZE || bytes.len() < total_len {
+            return Err(postcard::Error::DeserializeUnexpectedEnd);
+        }
+        let (body, stored) = bytes[..total_len].split_at(total_len - CHECKSUM_SIZE);
+        if checksum(body).to_le_bytes() != stored {
+            return Err(postcard::Error::DeserializeBadCrc);
+        }
+
+        postcard::from_bytes(&body[4..])
+    }
+}
+
+/// Bytes taken by the checksum that ends every encoded record.
+const CHECKSUM_SIZE: usize = size_of::<u32>();
+
+/// CRC-32 (IEEE) of an encoded record's header and payload.
+fn checksum(bytes: &[u8]) -> u32 {
+    let mut crc = !0u32;
+    for &byte in bytes {
+        crc ^= u32::from(byte);
+        for _ in 0..8 {
+            crc = (crc >> 1) ^ (0xEDB8_8320 & 0u32.wrapping_sub(crc & 1));
+        }
     }
+    !crc
 }
 
 impl std::fmt::Display for LogRecord {
-- 
2.43.0


From c88b5927fc0bd1021a849e49259378abc58679df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 18/56] fix: a failed log flush must not leave a gap, and
 commits must report it

The flusher stops after a failed write, appends then return INVALID_LSN, LSNs
continue after a restart, and log records of any size can be read back.
---
 src/recovery/log_manager.rs                | 51 ++++++++++++++++++----
 src/storage/disk/async_disk/io/executor.rs | 10 +++++
 src/storage/disk/async_disk/io/io_impl.rs  |  5 +++
 src/storage/disk/async_disk/manager.rs     |  6 +++
 4 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index fc85bc8..3b5265a 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -324,8 +324,17 @@ impl LogManager {
                 }
 
                 if !records_to_flush.is_empty() {
-                    Self::perform_flush(&state, records_to_flush, max_lsn_in_batch, "periodic")
-                        .await;
+                    let flushed = Self::perform_flush(
+                        &state,
+                        records_to_flush,
+                        max_lsn_in_batch,
+                        "periodic",
+                    )
+                    .await;
+                    if !flushed {
+                        // Later records must not reach the log behind a gap.
+                        return;
+                    }
                 }
             }
 
@@ -365,14 +374,16 @@ impl LogManager {
     ///
     /// If a disk write fails, the `stop_flag` is set to prevent false durability
     /// signals. Callers waiting on commit will detect this and stop waiting.
+    ///
+    /// Returns whether the batch was written.
     async fn perform_flush(
         state: &Arc<LogManagerState>,
         records: Vec<Arc<LogRecord>>,
         max_lsn: Lsn,
         flush_reason: &str,
-    ) {
+    ) -> bool {
         if records.is_empty() {
-            return;
+            return true;
         }
 
         let disk_manager = Arc::clone(&state.disk_manager);
@@ -397,6 +408,7 @@ impl LogManager {
                         flush_reason, max_lsn
                     );
                 }
+                true
             },
             Err(e) => {
                 error!(
@@ -406,6 +418,7 @@ impl LogManager {
                 // Fail closed: stop the flush thread to avoid giving a false durability signal.
                 // Callers waiting on commit will notice stop_flag and stop waiting.
                 state.stop_flag.store(true, Ordering::SeqCst);
+                false
             },
         }
     }
@@ -446,7 +459,8 @@ impl LogManager {
     /// - `log_record`: The log record to append.
     ///
     /// # Returns
-    /// The log sequence number (LSN) of the appended log record.
+    /// The log sequence number (LSN) of the appended log record, or `INVALID_LSN` if
+    /// the log has stopped and the record (for a commit: its durability) was refused.
     pub fn append_log_record(&mut self, log_record: Arc<LogRecord>) -> Lsn {
         // Assign a new LSN atomically
         let lsn = self.state.next_lsn.fetch_add(1, Ordering::SeqCst);
@@ -468,7 +482,7 @@ impl LogManager {
                 },
                 Err(tokio::sync::mpsc::error::TrySendError::Closed(_)) => {
                     error!("Failed to queue log record: channel closed");
-                    break;
+                    return INVALID_LSN;
                 },
             }
         }
@@ -491,7 +505,7 @@ impl LogManager {
                         "Log flush thread stopped while waiting for commit LSN {} to persist",
                         lsn
                     );
-                    break;
+                    return INVALID_LSN;
                 }
                 thread::sleep(Duration::from_millis(1));
             }
@@ -540,6 +554,18 @@ impl LogManager {
         self.state.persistent_lsn.store(lsn, Ordering::SeqCst);
     }
 
+    /// Continues the log of an earlier run, whose last record has `last_lsn`: it is
+    /// on disk already, and new records get the sequence numbers after it.
+    pub fn resume_after(&mut self, last_lsn: Lsn) {
+        self.state
+            .next_lsn
+            .fetch_max(last_lsn + 1, Ordering::SeqCst);
+        let persistent = self.get_persistent_lsn();
+        if persistent == INVALID_LSN || persistent < last_lsn {
+            self.set_persistent_lsn(last_lsn);
+        }
+    }
+
     /// Parses a log record from raw bytes
     ///
     /// # Parameters
@@ -582,7 +608,16 @@ impl LogManager {
     ) -> Option<LogRecord> {
         debug!("Reading log record from offset {}", offset);
 
-        match disk_manager.read_log(offset).await {
+        // The record's own header says how much of the log it takes.
+        let bytes = match disk_manager.read_log_sized(offset, 4).await {
+            Ok(header) => {
+                let size = header.try_into().map(i32::from_le_bytes).unwrap_or(0);
+                let size = usize::try_from(size).unwrap_or(0).clamp(4, 1_000_000);
+                disk_manager.read_log_sized(offset, size).await
+            },
+            Err(e) => Err(e),
+        };
+        match bytes {
             Ok(bytes) => match LogRecord::from_bytes(&bytes) {
                 Ok(record) => {
                     debug!(
diff --git a/src/storage/disk/async_disk/io/executor.rs b/src/storage/disk/async_disk/io/executor.rs
index 52700a8..317b1cd 100644
--- a/src/storage/disk/async_disk/io/executor.rs
+++ b/src/storage/disk/async_disk/io/executor.rs
@@ -611,6 +611,16 @@ impl IOOperationExecutor {
         Ok(metadata.len())
     }
 
+    /// Cuts the log file off at `len` bytes; a shorter file is left as it is.
+    pub async fn truncate_log(&self, len: u64) -> IoResult<()> {
+        let file = self.log_file.lock().await;
+        if file.metadata().await?.len() > len {
+            file.set_len(len).await?;
+            file.sync_data().await?;
+        }
+        Ok(())
+    }
+
     /// Gets a reference to the database file (for advanced use cases)
     pub fn db_file(&self) -> Arc<Mutex<File>> {
         Arc::clone(&self.db_file)
diff --git a/src/storage/disk/async_disk/io/io_impl.rs b/src/storage/disk/async_disk/io/io_impl.rs
index 1773e43..0385b99 100644
--- a/src/storage/disk/async_disk/io/io_impl.rs
+++ b/src/storage/disk/async_disk/io/io_impl.rs
@@ -515,6 +515,11 @@ impl AsyncIOEngine {
         Self::await_operation(receiver).await.map(|_| ())
     }
 
+    /// Cuts the log file off at `len` bytes
+    pub async fn truncate_log(&self, len: u64) -> IoResult<()> {
+        self.executor.truncate_log(len).await
+    }
+
     /// Gets the current size of the database file in bytes
     pub async fn get_db_file_size(&self) -> IoResult<u64> {
         self.executor.get_db_file_size().await
diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index ba43e93..f4e7928 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -1174,6 +1174,12 @@ impl AsyncDiskManager {
         Ok(offset)
     }
 
+    /// Cuts the WAL/log file off at `len` bytes (drops a torn tail before appending).
+    pub async fn truncate_log(&self, len: u64) -> IoResult<()> {
+        debug!("Truncating log to {} bytes", len);
+        self.io_engine.read().await.truncate_log(len).await
+    }
+
     /// Gets configuration information
     pub fn get_config(&self) -> &DiskManagerConfig {
         &self.config
-- 
2.43.0


From 95559ea6170878f975d02ed561d72e70b218b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 19/56] fix: recovery must restore rows by value, roll back
 losers and truncate the torn tail

Redo repeats history including logged rollbacks, recreates slots and pages that
never reached the disk, and leaves rows committed; the log is continued after its
last complete record.
---
 src/recovery/log_recovery.rs | 278 ++++++++++++++++++++++++-----------
 1 file changed, 190 insertions(+), 88 deletions(-)

diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 6155949..1ef70ec 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -253,14 +253,17 @@ use log::{debug, info, warn};
 use parking_lot::RwLock;
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
+use crate::catalog::schema::Schema;
 use crate::common::config::{INVALID_LSN, Lsn, PageId, TxnId};
-use crate::recovery::log_iterator::LogIterator;
+use crate::common::rid::RID;
+use crate::recovery::log_iterator::{LogIterator, is_eof_error};
 use crate::recovery::log_manager::LogManager;
 use crate::recovery::log_record::{LogRecord, LogRecordType};
 use crate::storage::disk::async_disk::AsyncDiskManager;
+use crate::storage::page::page_guard::PageGuard;
 use crate::storage::page::page_impl::PageTrait;
 use crate::storage::page::page_types::table_page::TablePage;
-use crate::storage::table::tuple::TupleMeta;
+use crate::storage::table::tuple::{Tuple, TupleMeta};
 
 /// Orchestrates the ARIES recovery protocol to restore the database to a
 /// consistent state after a crash.
@@ -338,25 +341,55 @@ impl LogRecoveryManager {
     pub async fn start_recovery(&self) -> Result<(), String> {
         info!("Starting database recovery");
 
+        // Continue the log after its last complete record
+        self.resume_log().await?;
+
         // Phase 1: Analysis - determine active transactions at time of crash
         let (mut txn_table, mut dirty_page_table, start_redo_lsn) = self.analyze_log().await?;
 
-        // Phase 2: Redo - reapply all updates (even from aborted transactions)
+        // Phase 2: Redo - repeat history (including the rollback of aborted transactions)
         self.redo_log(&mut txn_table, &mut dirty_page_table, start_redo_lsn)
             .await?;
 
         // Phase 3: Undo - rollback uncommitted transactions
         self.undo_log(&txn_table).await?;
 
-        // Update the log manager's persistent LSN
-        let mut log_manager = self.log_manager.write();
-        let lsn = log_manager.get_next_lsn();
-        log_manager.set_persistent_lsn(lsn);
-
         info!("Database recovery completed successfully");
         Ok(())
     }
 
+    /// Drops a torn tail, so that new records follow the last complete one, and makes
+    /// the log manager continue its sequence numbers.
+    async fn resume_log(&self) -> Result<(), String> {
+        let mut log_iterator = LogIterator::new(self.disk_manager.clone());
+        let mut last_lsn = INVALID_LSN;
+        let mut end_offset = 0;
+
+        while let Some(log_record) = log_iterator.next().await {
+            let lsn = log_record.get_lsn();
+            if last_lsn == INVALID_LSN || lsn > last_lsn {
+                last_lsn = lsn;
+            }
+            end_offset = log_iterator.get_offset();
+        }
+
+        // An unreadable log is not a torn one.
+        if let Err(e) = self.disk_manager.read_log_sized(end_offset, 1).await
+            && !is_eof_error(&e)
+        {
+            return Err(format!("Failed to read log at offset {}: {}", end_offset, e));
+        }
+        self.disk_manager
+            .truncate_log(end_offset)
+            .await
+            .map_err(|e| format!("Failed to truncate log: {}", e))?;
+
+        if last_lsn != INVALID_LSN {
+            self.log_manager.write().resume_after(last_lsn);
+        }
+        Ok(())
+    }
+
     /// Phase 1: Analyzes the log to identify active transactions and dirty pages.
     ///
     /// # Returns
@@ -451,6 +484,10 @@ impl LogRecoveryManager {
             start_redo_lsn
         );
 
+        // Transactions that have neither committed nor rolled back yet
+        let mut open_txns = TxnTable::new();
+        let lsn_to_offset_map = self.build_lsn_offset_map().await?;
+
         // Create a log iterator to safely read through the log
         let mut log_iterator = LogIterator::new(self.disk_manager.clone());
 
@@ -463,6 +500,20 @@ impl LogRecoveryManager {
                 continue;
             }
 
+            let txn_id = log_record.get_txn_id();
+            match log_record.get_log_record_type() {
+                LogRecordType::Commit => open_txns.remove_txn(txn_id),
+                LogRecordType::Abort => {
+                    // The rollback happened here, before whatever follows.
+                    if let Some(last_lsn) = open_txns.get_prev_lsn(txn_id) {
+                        self.undo_transaction(txn_id, last_lsn, &lsn_to_offset_map)
+                            .await?;
+                        open_txns.remove_txn(txn_id);
+                    }
+                },
+                _ => open_txns.add_txn(txn_id, lsn),
+            }
+
             // Check if we need to redo this operation
             let should_redo = match log_record.get_log_record_type() {
                 LogRecordType::Update
@@ -513,73 +564,86 @@ impl LogRecoveryManager {
         info!("Undoing {} active transactions", active_txns.len());
 
         // For each active transaction, undo its operations in reverse LSN order
+        let lsn_to_offset_map = self.build_lsn_offset_map().await?;
         for txn_id in active_txns {
             debug!("Undoing transaction {}", txn_id);
 
-            // Start from the last LSN of this transaction
-            let mut current_lsn = txn_table.get_prev_lsn(txn_id).unwrap_or(INVALID_LSN);
-
-            // Build a map of LSN to offset in the log file
-            // This requires a full scan of the log to build the LSN-to-offset mapping
-            let lsn_to_offset_map = self.build_lsn_offset_map().await?;
-
-            // Continue until we reach the BEGIN record or INVALID_LSN
-            while current_lsn != INVALID_LSN {
-                // Get the offset for this LSN
-                if let Some(offset) = lsn_to_offset_map.get(&current_lsn) {
-                    // Create a LogIterator at this specific offset
-                    let mut single_record_iterator =
-                        LogIterator::with_offset(self.disk_manager.clone(), *offset);
-
-                    if let Some(log_record) = single_record_iterator.next().await {
-                        if log_record.get_txn_id() == txn_id {
-                            match log_record.get_log_record_type() {
-                                LogRecordType::Begin => {
-                                    // We've reached the beginning of this transaction
-                                    debug!("Reached BEGIN record for transaction {}", txn_id);
-                                    break;
-                                },
-                                LogRecordType::Insert => {
-                                    // Undo insert by deleting
-                                    self.undo_insert(&log_record)?;
-                                },
-                                LogRecordType::Update => {
-                                    // Undo update by restoring old value
-                                    self.undo_update(&log_record)?;
-                                },
-                                LogRecordType::MarkDelete => {
-                                    // Undo delete by restoring tuple
-                                    self.undo_delete(&log_record)?;
-                                },
-                                LogRecordType::NewPage => {
-                                    // Don't need to undo new page creation
-                                },
-                                _ => {}, // Ignore other record types for undo
-                            }
-
-                            // Move to previous LSN
-                            current_lsn = log_record.get_prev_lsn();
-                        } else {
-                            // This shouldn't happen in a well-formed log
-                            warn!("Found record for different transaction during undo");
-                            break;
+            let last_lsn = txn_table.get_prev_lsn(txn_id).unwrap_or(INVALID_LSN);
+            self.undo_transaction(txn_id, last_lsn, &lsn_to_offset_map)
+                .await?;
+
+            // Write an ABORT record for this transaction, so that a later recovery rolls
+            // it back here and not after whatever changes the same rows next
+            debug!("Writing ABORT record for transaction {}", txn_id);
+            let abort =
+                LogRecord::new_transaction_record(txn_id, last_lsn, LogRecordType::Abort);
+            self.log_manager.write().append_log_record(Arc::new(abort));
+        }
+
+        info!("Undo phase complete");
+        Ok(())
+    }
+
+    /// Rolls back one transaction, following its records backwards from `last_lsn`.
+    async fn undo_transaction(
+        &self,
+        txn_id: TxnId,
+        last_lsn: Lsn,
+        lsn_to_offset_map: &HashMap<Lsn, u64>,
+    ) -> Result<(), String> {
+        let mut current_lsn = last_lsn;
+
+        // Continue until we reach the BEGIN record or INVALID_LSN
+        while current_lsn != INVALID_LSN {
+            // Get the offset for this LSN
+            if let Some(offset) = lsn_to_offset_map.get(&current_lsn) {
+                // Create a LogIterator at this specific offset
+                let mut single_record_iterator =
+                    LogIterator::with_offset(self.disk_manager.clone(), *offset);
+
+                if let Some(log_record) = single_record_iterator.next().await {
+                    if log_record.get_txn_id() == txn_id {
+                        match log_record.get_log_record_type() {
+                            LogRecordType::Begin => {
+                                // We've reached the beginning of this transaction
+                                debug!("Reached BEGIN record for transaction {}", txn_id);
+                                break;
+                            },
+                            LogRecordType::Insert => {
+                                // Undo insert by deleting
+                                self.undo_insert(&log_record)?;
+                            },
+                            LogRecordType::Update => {
+                                // Undo update by restoring old value
+                                self.undo_update(&log_record)?;
+                            },
+                            LogRecordType::MarkDelete => {
+                                // Undo delete by restoring tuple
+                                self.undo_delete(&log_record)?;
+                            },
+                            LogRecordType::NewPage => {
+                                // Don't need to undo new page creation
+                            },
+                            _ => {}, // Ignore other record types for undo
                         }
+
+                        // Move to previous LSN
+                        current_lsn = log_record.get_prev_lsn();
                     } else {
-                        warn!("Could not read log record during undo");
+                        // This shouldn't happen in a well-formed log
+                        warn!("Found record for different transaction during undo");
                         break;
                     }
                 } else {
-                    warn!("Could not find offset for LSN {} during undo", current_lsn);
+                    warn!("Could not read log record during undo");
                     break;
                 }
+            } else {
+                warn!("Could not find offset for LSN {} during undo", current_lsn);
+                break;
             }
-
-            // Write an ABORT record for this transaction
-            debug!("Writing ABORT record for transaction {}", txn_id);
-            // In a real implementation, we would create and append an actual ABORT record
         }
 
-        info!("Undo phase complete");
         Ok(())
     }
 
@@ -645,12 +709,12 @@ impl LogRecoveryManager {
                     (record.get_insert_rid(), record.get_insert_tuple())
                 {
                     debug!("Redoing INSERT for RID {:?}", rid);
-                    if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
+                    if let Some(page_guard) = self.fetch_or_recreate(rid.get_page_id()) {
                         let mut page = page_guard.write();
-                        let meta = TupleMeta::new(record.get_txn_id());
+                        let meta = Self::recovered_meta(record.get_txn_id());
                         if let Some(tuple) = record.get_insert_tuple() {
-                            let _ = page.insert_tuple_with_rid(&meta, tuple, *rid);
-                            page.set_dirty(true);
+                            Self::ensure_slot(&mut page, meta, rid);
+                            Self::put_tuple(&mut page, meta, tuple, rid);
                         }
                     }
                 }
@@ -665,9 +729,8 @@ impl LogRecoveryManager {
                         if let (Some(tuple), Some(_old)) =
                             (record.get_update_tuple(), record.get_original_tuple())
                         {
-                            let meta = TupleMeta::new(record.get_txn_id());
-                            let _ = page.update_tuple(meta, tuple, *rid);
-                            page.set_dirty(true);
+                            let meta = Self::recovered_meta(record.get_txn_id());
+                            Self::put_tuple(&mut page, meta, tuple, rid);
                         }
                     }
                 }
@@ -677,10 +740,10 @@ impl LogRecoveryManager {
                     debug!("Redoing MARK_DELETE for RID {:?}", rid);
                     if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
                         let mut page = page_guard.write();
-                        if let Ok((mut meta, tuple)) = page.get_tuple(rid, true) {
+                        if let Ok((_, tuple)) = page.get_tuple(rid, true) {
+                            let mut meta = Self::recovered_meta(record.get_txn_id());
                             meta.set_deleted(true);
-                            let _ = page.update_tuple(meta, &tuple, *rid);
-                            page.set_dirty(true);
+                            Self::put_tuple(&mut page, meta, &tuple, rid);
                         }
                     }
                 }
@@ -690,20 +753,22 @@ impl LogRecoveryManager {
                     debug!("Redoing APPLY_DELETE for RID {:?}", rid);
                     if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
                         let mut page = page_guard.write();
-                        if let Ok((mut meta, tuple)) = page.get_tuple(rid, true) {
+                        if let Ok((_, tuple)) = page.get_tuple(rid, true) {
+                            let mut meta = Self::recovered_meta(record.get_txn_id());
                             meta.set_deleted(true);
-                            let _ = page.update_tuple(meta, &tuple, *rid);
-                            page.set_dirty(true);
+                            Self::put_tuple(&mut page, meta, &tuple, rid);
                         }
                     }
                 }
             },
+            LogRecordType::RollbackDelete => {
+                debug!("Redoing ROLLBACK_DELETE for RID {:?}", record.get_delete_rid());
+                self.undo_delete(record)?;
+            },
             LogRecordType::NewPage => {
                 if let Some(page_id) = record.get_page_id() {
                     debug!("Redoing NEW_PAGE for page {}", page_id);
-                    if self.bpm.fetch_page::<TablePage>(*page_id).is_none() {
-                        let _ = self.bpm.new_page::<TablePage>();
-                    }
+                    let _ = self.fetch_or_recreate(*page_id);
                 }
             },
             _ => {}, // Ignore other record types for redo
@@ -711,6 +776,46 @@ impl LogRecoveryManager {
         Ok(())
     }
 
+    /// Metadata of a row as recovery leaves it: what is still there at the end was
+    /// committed, before any transaction that starts afterwards.
+    fn recovered_meta(txn_id: TxnId) -> TupleMeta {
+        let mut meta = TupleMeta::new(txn_id);
+        meta.set_commit_timestamp(0);
+        meta
+    }
+
+    /// Adds deleted rows until `rid` has a slot: the records that fill the slots below
+    /// it may come later in the log.
+    fn ensure_slot(page: &mut TablePage, meta: TupleMeta, rid: &RID) {
+        let empty = Tuple::new(&[], &Schema::new(vec![]), *rid);
+        let mut deleted = meta;
+        deleted.set_deleted(true);
+        while u32::from(page.get_num_tuples()) <= rid.get_slot_num() {
+            let vacant = RID::new(rid.get_page_id(), u32::from(page.get_num_tuples()));
+            if page.insert_tuple_with_rid(&meta, &empty, vacant).is_none()
+                || page.update_tuple_meta(deleted, &vacant).is_err()
+            {
+                return;
+            }
+        }
+    }
+
+    /// Sets the row at `rid`, which must have a slot in `page`.
+    fn put_tuple(page: &mut TablePage, meta: TupleMeta, tuple: &Tuple, rid: &RID) {
+        if let Err(e) = page.update_tuple(meta, tuple, *rid) {
+            warn!("Could not restore RID {:?}: {:?}", rid, e);
+            return;
+        }
+        page.set_dirty(true);
+    }
+
+    /// The table page, brought back empty if it never reached the disk.
+    fn fetch_or_recreate(&self, page_id: PageId) -> Option<PageGuard<TablePage>> {
+        self.bpm
+            .fetch_page::<TablePage>(page_id)
+            .or_else(|| self.bpm.recreate_page::<TablePage>(page_id))
+    }
+
     /// Undo an insert operation
     ///
     /// # Parameters
@@ -720,10 +825,10 @@ impl LogRecoveryManager {
             debug!("Undoing INSERT for RID {:?}", rid);
             if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
                 let mut page = page_guard.write();
-                if let Ok((mut meta, tuple)) = page.get_tuple(rid, true) {
+                if let Ok((_, tuple)) = page.get_tuple(rid, true) {
+                    let mut meta = Self::recovered_meta(record.get_txn_id());
                     meta.set_deleted(true);
-                    let _ = page.update_tuple(meta, &tuple, *rid);
-                    page.set_dirty(true);
+                    Self::put_tuple(&mut page, meta, &tuple, rid);
                 }
             }
         }
@@ -742,9 +847,8 @@ impl LogRecoveryManager {
             if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
                 let mut page = page_guard.write();
                 if let Some(original) = record.get_original_tuple() {
-                    let meta = TupleMeta::new(record.get_txn_id());
-                    let _ = page.update_tuple(meta, original, *rid);
-                    page.set_dirty(true);
+                    let meta = Self::recovered_meta(record.get_txn_id());
+                    Self::put_tuple(&mut page, meta, original, rid);
                 }
             }
         }
@@ -761,10 +865,8 @@ impl LogRecoveryManager {
             if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
                 let mut page = page_guard.write();
                 if let Some(tuple) = record.get_delete_tuple() {
-                    let mut meta = TupleMeta::new(record.get_txn_id());
-                    meta.set_deleted(false);
-                    let _ = page.update_tuple(meta, tuple, *rid);
-                    page.set_dirty(true);
+                    let meta = Self::recovered_meta(record.get_txn_id());
+                    Self::put_tuple(&mut page, meta, tuple, rid);
                 }
             }
         }
-- 
2.43.0


From f39ecd9490b78be5d55c3e80f2de3cd685f1a308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 20/56] fix: a transaction must not be reported committed
 unless its commit record is durable

---
 .../transaction_manager_factory.rs            | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/concurrency/transaction_manager_factory.rs b/src/concurrency/transaction_manager_factory.rs
index 788ada6..1670b24 100644
--- a/src/concurrency/transaction_manager_factory.rs
+++ b/src/concurrency/transaction_manager_factory.rs
@@ -143,8 +143,9 @@ use std::sync::Arc;
 use log::{error, warn};
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
+use crate::common::config::INVALID_LSN;
 use crate::concurrency::lock_manager::LockManager;
-use crate::concurrency::transaction::IsolationLevel;
+use crate::concurrency::transaction::{IsolationLevel, TransactionState};
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::recovery::wal_manager::WALManager;
 use crate::sql::execution::transaction_context::TransactionContext;
@@ -305,9 +306,25 @@ impl TransactionManagerFactory {
     pub async fn commit_transaction(&self, ctx: Arc<TransactionContext>) -> bool {
         let txn = ctx.get_transaction();
 
-        // Write commit record before persisting data (WAL-first).
-        if let Some(wal_manager) = &self.wal_manager {
+        // Write commit record before persisting data (WAL-first), unless the transaction
+        // can no longer commit (or already has).
+        let may_commit = !matches!(
+            txn.get_state(),
+            TransactionState::Aborted | TransactionState::Committed
+        );
+        if may_commit && let Some(wal_manager) = &self.wal_manager {
             let lsn = wal_manager.write_commit_record(txn.as_ref());
+            if lsn == INVALID_LSN {
+                error!("Commit record could not be made durable, rolling back");
+                self.transaction_manager.abort(txn.clone());
+                if let Err(e) = self
+                    .lock_manager
+                    .force_release_txn(txn.get_transaction_id())
+                {
+                    warn!("Lock release failed after commit failure: {}", e);
+                }
+                return false;
+            }
             txn.set_prev_lsn(lsn);
         }
 
@@ -372,8 +389,12 @@ impl TransactionManagerFactory {
     pub fn abort_transaction(&self, ctx: Arc<TransactionContext>) {
         let txn = ctx.get_transaction();
 
-        // Log abort if WAL is available.
-        if let Some(wal_manager) = &self.wal_manager {
+        // Log abort if WAL is available and the transaction is not over already.
+        let finished = matches!(
+            txn.get_state(),
+            TransactionState::Aborted | TransactionState::Committed
+        );
+        if !finished && let Some(wal_manager) = &self.wal_manager {
             let lsn = wal_manager.write_abort_record(txn.as_ref());
             txn.set_prev_lsn(lsn);
         }
-- 
2.43.0


From cb8d56c74b4c5db1073f62ee7eed4be7f64c131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:19 +0000
Subject: [PATCH 21/56] fix: a page id out of range must fail its operation,
 not kill the I/O worker

---
 src/storage/disk/async_disk/io/executor.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/storage/disk/async_disk/io/executor.rs b/src/storage/disk/async_disk/io/executor.rs
index 317b1cd..6b08f44 100644
--- a/src/storage/disk/async_disk/io/executor.rs
+++ b/src/storage/disk/async_disk/io/executor.rs
@@ -405,6 +405,16 @@ impl IOOperationExecutor {
         }
     }
 
+    /// Byte offset of a page in the database file; a page id too large to have one is an error
+    fn page_offset(page_id: PageId) -> IoResult<u64> {
+        page_id.checked_mul(DB_PAGE_SIZE).ok_or_else(|| {
+            std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("Page id {} is out of range", page_id),
+            )
+        })
+    }
+
     /// Reads a page from the database file
     ///
     /// When direct I/O is enabled, uses aligned buffers to ensure
@@ -416,7 +426,7 @@ impl IOOperationExecutor {
     /// # Returns
     /// The page data as a vector of bytes
     async fn execute_read_page(&self, page_id: PageId) -> IoResult<Vec<u8>> {
-        let offset = page_id * DB_PAGE_SIZE;
+        let offset = Self::page_offset(page_id)?;
         let size = DB_PAGE_SIZE as usize;
 
         let mut file = self.db_file.lock().await;
@@ -463,7 +473,7 @@ impl IOOperationExecutor {
             ));
         }
 
-        let offset = page_id * DB_PAGE_SIZE;
+        let offset = Self::page_offset(page_id)?;
 
         let mut file = self.db_file.lock().await;
 
-- 
2.43.0


From 77422b66e5a9f1436ba51830feddaef05af52e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:19 +0000
Subject: [PATCH 22/56] fix: a waiter must not miss a completion between its
 check and its subscription

---
 src/storage/disk/async_disk/io/completion.rs | 65 +++++++++++++++-----
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/src/storage/disk/async_disk/io/completion.rs b/src/storage/disk/async_disk/io/completion.rs
index 5005114..3cc33b1 100644
--- a/src/storage/disk/async_disk/io/completion.rs
+++ b/src/storage/disk/async_disk/io/completion.rs
@@ -548,6 +548,10 @@ impl CompletionTracker {
         op_id: OperationId,
         wait_timeout: Duration,
     ) -> Result<OperationResult, String> {
+        // Subscribe to operation completion events before looking at the status, so that a
+        // completion in between is not missed
+        let mut event_receiver = self.event_sender.subscribe();
+
         // First check if the operation is already completed
         {
             let operations = self.operations.read().await;
@@ -567,16 +571,21 @@ impl CompletionTracker {
             }
         }
 
-        // Subscribe to operation completion events
-        let mut event_receiver = self.event_sender.subscribe();
-
         // Use tokio::select to wait for either the operation completion or timeout
         tokio::select! {
             // Wait for operation completion event
             result = async {
-                while let Ok(event) = event_receiver.recv().await {
-                    if event.operation_id == op_id {
-                        return event.result;
+                loop {
+                    match event_receiver.recv().await {
+                        Ok(event) if event.operation_id == op_id => return event.result,
+                        Ok(_) => {},
+                        // Some events were dropped; this operation's may have been among them
+                        Err(broadcast::error::RecvError::Lagged(_)) => {
+                            if !self.is_operation_pending(op_id).await {
+                                break;
+                            }
+                        },
+                        Err(broadcast::error::RecvError::Closed) => break,
                     }
                 }
                 // If the broadcast channel is closed, check final status
@@ -809,6 +818,10 @@ impl CompletionTracker {
         let mut remaining_ids: std::collections::HashSet<OperationId> =
             op_ids.iter().copied().collect();
 
+        // Subscribe to events before looking at the statuses, so that a completion in between is
+        // not missed
+        let mut event_receiver = self.event_sender.subscribe();
+
         // Check for already completed operations
         {
             let operations = self.operations.read().await;
@@ -839,21 +852,41 @@ impl CompletionTracker {
             return Ok(results);
         }
 
-        // Subscribe to events for remaining operations
-        let mut event_receiver = self.event_sender.subscribe();
-
         tokio::select! {
             // Wait for all remaining operations
             _ = async {
                 while !remaining_ids.is_empty() {
-                    if let Ok(event) = event_receiver.recv().await {
-                        if remaining_ids.contains(&event.operation_id) {
-                            results.push((event.operation_id, event.result));
-                            remaining_ids.remove(&event.operation_id);
-                        }
-                    } else {
+                    match event_receiver.recv().await {
+                        Ok(event) => {
+                            if remaining_ids.contains(&event.operation_id) {
+                                results.push((event.operation_id, event.result));
+                                remaining_ids.remove(&event.operation_id);
+                            }
+                        },
+                        // Some events were dropped; look at the statuses instead
+                        Err(broadcast::error::RecvError::Lagged(_)) => {
+                            let operations = self.operations.read().await;
+                            remaining_ids.retain(|op_id| match operations.get(op_id) {
+                                Some(OperationStatus::Pending { .. }) => true,
+                                Some(OperationStatus::Completed { result, .. }) => {
+                                    results.push((*op_id, result.clone()));
+                                    false
+                                },
+                                Some(OperationStatus::Cancelled { reason, .. }) => {
+                                    results.push((
+                                        *op_id,
+                                        OperationResult::Error(format!(
+                                            "Operation was cancelled: {}",
+                                            reason
+                                        )),
+                                    ));
+                                    false
+                                },
+                                None => false,
+                            });
+                        },
                         // Channel closed, break
-                        break;
+                        Err(broadcast::error::RecvError::Closed) => break,
                     }
                 }
             } => {}
-- 
2.43.0


From 756dbbd66196bf677ce9cfd14db3d801eb8daaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:23 +0000
Subject: [PATCH 23/56] fix: compare integers and reals exactly, check integer
 arithmetic and conversions, and read values back with their type

---
 src/types_db/value.rs | 470 +++++++++++++++++++++++++++++++-----------
 1 file changed, 348 insertions(+), 122 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 66ea03f..d76c28a 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1,3 +1,4 @@
+use std::cmp::Ordering;
 use std::fmt;
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::{Hash, Hasher};
@@ -609,18 +610,22 @@ impl Value {
             (Val::Decimal(f), TypeId::Boolean) => {
                 Ok(Value::new_with_type(Val::Boolean(*f != 0.0), target_type))
             },
-            (Val::Decimal(f), TypeId::TinyInt) => {
-                Ok(Value::new_with_type(Val::TinyInt(*f as i8), target_type))
-            },
-            (Val::Decimal(f), TypeId::SmallInt) => {
-                Ok(Value::new_with_type(Val::SmallInt(*f as i16), target_type))
-            },
-            (Val::Decimal(f), TypeId::Integer) => {
-                Ok(Value::new_with_type(Val::Integer(*f as i32), target_type))
-            },
-            (Val::Decimal(f), TypeId::BigInt) => {
-                Ok(Value::new_with_type(Val::BigInt(*f as i64), target_type))
-            },
+            (Val::Decimal(f), TypeId::TinyInt) => Ok(Value::new_with_type(
+                Val::TinyInt(real_to_int(*f)?),
+                target_type,
+            )),
+            (Val::Decimal(f), TypeId::SmallInt) => Ok(Value::new_with_type(
+                Val::SmallInt(real_to_int(*f)?),
+                target_type,
+            )),
+            (Val::Decimal(f), TypeId::Integer) => Ok(Value::new_with_type(
+                Val::Integer(real_to_int(*f)?),
+                target_type,
+            )),
+            (Val::Decimal(f), TypeId::BigInt) => Ok(Value::new_with_type(
+                Val::BigInt(real_to_int(*f)?),
+                target_type,
+            )),
             (Val::Decimal(f), TypeId::Float) => {
                 Ok(Value::new_with_type(Val::Float(*f as f32), target_type))
             },
@@ -637,18 +642,22 @@ impl Value {
             (Val::Float(f), TypeId::Boolean) => {
                 Ok(Value::new_with_type(Val::Boolean(*f != 0.0), target_type))
             },
-            (Val::Float(f), TypeId::TinyInt) => {
-                Ok(Value::new_with_type(Val::TinyInt(*f as i8), target_type))
-            },
-            (Val::Float(f), TypeId::SmallInt) => {
-                Ok(Value::new_with_type(Val::SmallInt(*f as i16), target_type))
-            },
-            (Val::Float(f), TypeId::Integer) => {
-                Ok(Value::new_with_type(Val::Integer(*f as i32), target_type))
-            },
-            (Val::Float(f), TypeId::BigInt) => {
-                Ok(Value::new_with_type(Val::BigInt(*f as i64), target_type))
-            },
+            (Val::Float(f), TypeId::TinyInt) => Ok(Value::new_with_type(
+                Val::TinyInt(real_to_int(f64::from(*f))?),
+                target_type,
+            )),
+            (Val::Float(f), TypeId::SmallInt) => Ok(Value::new_with_type(
+                Val::SmallInt(real_to_int(f64::from(*f))?),
+                target_type,
+            )),
+            (Val::Float(f), TypeId::Integer) => Ok(Value::new_with_type(
+                Val::Integer(real_to_int(f64::from(*f))?),
+                target_type,
+            )),
+            (Val::Float(f), TypeId::BigInt) => Ok(Value::new_with_type(
+                Val::BigInt(real_to_int(f64::from(*f))?),
+                target_type,
+            )),
             (Val::Float(f), TypeId::Decimal) => {
                 Ok(Value::new_with_type(Val::Decimal(*f as f64), target_type))
             },
@@ -1304,6 +1313,45 @@ impl Value {
     }
 }
 
+/// The result of an integer operation, or an error when it does not fit its type.
+fn in_range<T>(result: Option<T>) -> Result<T, String> {
+    result.ok_or_else(|| "Integer value out of range".to_string())
+}
+
+/// Compares an integer with a real number exactly, without rounding the integer to a real first.
+fn cmp_int_real(i: i64, r: f64) -> Option<Ordering> {
+    // 2^63: every i64 is below it, and no real number in [-2^63, 2^63) truncates out of range
+    const LIMIT: f64 = 9_223_372_036_854_775_808.0;
+    if r.is_nan() {
+        None
+    } else if r >= LIMIT {
+        Some(Ordering::Less)
+    } else if r < -LIMIT {
+        Some(Ordering::Greater)
+    } else {
+        let whole = r.trunc();
+        match i.cmp(&(whole as i64)) {
+            Ordering::Equal => 0.0.partial_cmp(&(r - whole)),
+            unequal => Some(unequal),
+        }
+    }
+}
+
+/// The whole part of a real number as an integer of type `T`, or an error when it has none.
+fn real_to_int<T: TryFrom<i64>>(r: f64) -> Result<T, String> {
+    let whole = r.trunc();
+    if (-9_223_372_036_854_775_808.0..9_223_372_036_854_775_808.0).contains(&whole) {
+        int_to_int(whole as i64)
+    } else {
+        Err(format!("Value {} out of range", r))
+    }
+}
+
+/// An integer as an integer of another type, or an error when it does not fit.
+fn int_to_int<T: TryFrom<i64>>(i: i64) -> Result<T, String> {
+    T::try_from(i).map_err(|_| format!("Value {} out of range", i))
+}
+
 impl Type for Value {
     fn get_type_id(&self) -> TypeId {
         self.type_id_
@@ -1330,26 +1378,48 @@ impl Type for Value {
             (Val::Integer(a), Val::SmallInt(b)) => CmpBool::from(*a == *b as i32),
             (Val::Integer(a), Val::BigInt(b)) => CmpBool::from(*a as i64 == *b),
             (Val::Integer(a), Val::Decimal(b)) => CmpBool::from(*a as f64 == *b),
-            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f32 == *b),
+            (Val::Integer(a), Val::Float(b)) => CmpBool::from(
+                cmp_int_real(i64::from(*a), f64::from(*b)).is_some_and(Ordering::is_eq),
+            ),
 
             (Val::BigInt(a), Val::TinyInt(b)) => CmpBool::from(*a == *b as i64),
             (Val::BigInt(a), Val::SmallInt(b)) => CmpBool::from(*a == *b as i64),
             (Val::BigInt(a), Val::Integer(b)) => CmpBool::from(*a == *b as i64),
-            (Val::BigInt(a), Val::Decimal(b)) => CmpBool::from(*a as f64 == *b),
-            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f32 == *b),
+            (Val::BigInt(a), Val::Decimal(b)) => {
+                CmpBool::from(cmp_int_real(*a, *b).is_some_and(Ordering::is_eq))
+            },
+            (Val::BigInt(a), Val::Float(b)) => {
+                CmpBool::from(cmp_int_real(*a, f64::from(*b)).is_some_and(Ordering::is_eq))
+            },
 
             (Val::Decimal(a), Val::TinyInt(b)) => CmpBool::from(*a == *b as f64),
             (Val::Decimal(a), Val::SmallInt(b)) => CmpBool::from(*a == *b as f64),
             (Val::Decimal(a), Val::Integer(b)) => CmpBool::from(*a == *b as f64),
-            (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(*a == *b as f64),
+            (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(
+                cmp_int_real(*b, *a)
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_eq),
+            ),
             (Val::Decimal(a), Val::Float(b)) => CmpBool::from(*a == *b as f64),
 
             (Val::Float(a), Val::TinyInt(b)) => CmpBool::from(*a == *b as f32),
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a == *b as f32),
-            (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a == *b as f32),
-            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a == *b as f32),
+            (Val::Float(a), Val::Integer(b)) => CmpBool::from(
+                cmp_int_real(i64::from(*b), f64::from(*a))
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_eq),
+            ),
+            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(
+                cmp_int_real(*b, f64::from(*a))
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_eq),
+            ),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) == *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a == *b),
+            (Val::VarLen(a), Val::ConstLen(b)) | (Val::ConstLen(a), Val::VarLen(b)) => {
+                CmpBool::from(a == b)
+            },
+            (Val::Struct, Val::Struct) => CmpBool::from(self == other),
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
@@ -1381,26 +1451,48 @@ impl Type for Value {
             (Val::Integer(a), Val::SmallInt(b)) => CmpBool::from(*a != *b as i32),
             (Val::Integer(a), Val::BigInt(b)) => CmpBool::from(*a as i64 != *b),
             (Val::Integer(a), Val::Decimal(b)) => CmpBool::from(*a as f64 != *b),
-            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f32 != *b),
+            (Val::Integer(a), Val::Float(b)) => CmpBool::from(
+                !cmp_int_real(i64::from(*a), f64::from(*b)).is_some_and(Ordering::is_eq),
+            ),
 
             (Val::BigInt(a), Val::TinyInt(b)) => CmpBool::from(*a != *b as i64),
             (Val::BigInt(a), Val::SmallInt(b)) => CmpBool::from(*a != *b as i64),
             (Val::BigInt(a), Val::Integer(b)) => CmpBool::from(*a != *b as i64),
-            (Val::BigInt(a), Val::Decimal(b)) => CmpBool::from(*a as f64 != *b),
-            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f32 != *b),
+            (Val::BigInt(a), Val::Decimal(b)) => {
+                CmpBool::from(!cmp_int_real(*a, *b).is_some_and(Ordering::is_eq))
+            },
+            (Val::BigInt(a), Val::Float(b)) => {
+                CmpBool::from(!cmp_int_real(*a, f64::from(*b)).is_some_and(Ordering::is_eq))
+            },
 
             (Val::Decimal(a), Val::TinyInt(b)) => CmpBool::from(*a != *b as f64),
             (Val::Decimal(a), Val::SmallInt(b)) => CmpBool::from(*a != *b as f64),
             (Val::Decimal(a), Val::Integer(b)) => CmpBool::from(*a != *b as f64),
-            (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(*a != *b as f64),
+            (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(
+                !cmp_int_real(*b, *a)
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_eq),
+            ),
             (Val::Decimal(a), Val::Float(b)) => CmpBool::from(*a != *b as f64),
 
             (Val::Float(a), Val::TinyInt(b)) => CmpBool::from(*a != *b as f32),
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a != *b as f32),
-            (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a != *b as f32),
-            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a != *b as f32),
+            (Val::Float(a), Val::Integer(b)) => CmpBool::from(
+                !cmp_int_real(i64::from(*b), f64::from(*a))
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_eq),
+            ),
+            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(
+                !cmp_int_real(*b, f64::from(*a))
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_eq),
+            ),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) != *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a != *b),
+            (Val::VarLen(a), Val::ConstLen(b)) | (Val::ConstLen(a), Val::VarLen(b)) => {
+                CmpBool::from(a != b)
+            },
+            (Val::Struct, Val::Struct) => CmpBool::from(self != other),
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
@@ -1435,25 +1527,46 @@ impl Type for Value {
             (Val::Integer(a), Val::SmallInt(b)) => CmpBool::from(*a < (*b as i32)),
             (Val::Integer(a), Val::BigInt(b)) => CmpBool::from((*a as i64) < *b),
             (Val::Integer(a), Val::Decimal(b)) => CmpBool::from((*a as f64) < *b),
-            (Val::Integer(a), Val::Float(b)) => CmpBool::from((*a as f32) < *b),
+            (Val::Integer(a), Val::Float(b)) => CmpBool::from(
+                cmp_int_real(i64::from(*a), f64::from(*b)).is_some_and(Ordering::is_lt),
+            ),
 
             (Val::BigInt(a), Val::TinyInt(b)) => CmpBool::from(*a < (*b as i64)),
             (Val::BigInt(a), Val::SmallInt(b)) => CmpBool::from(*a < (*b as i64)),
             (Val::BigInt(a), Val::Integer(b)) => CmpBool::from(*a < (*b as i64)),
-            (Val::BigInt(a), Val::Decimal(b)) => CmpBool::from((*a as f64) < *b),
-            (Val::BigInt(a), Val::Float(b)) => CmpBool::from((*a as f32) < *b),
+            (Val::BigInt(a), Val::Decimal(b)) => {
+                CmpBool::from(cmp_int_real(*a, *b).is_some_and(Ordering::is_lt))
+            },
+            (Val::BigInt(a), Val::Float(b)) => {
+                CmpBool::from(cmp_int_real(*a, f64::from(*b)).is_some_and(Ordering::is_lt))
+            },
 
             (Val::Decimal(a), Val::TinyInt(b)) => CmpBool::from(*a < (*b as f64)),
             (Val::Decimal(a), Val::SmallInt(b)) => CmpBool::from(*a < (*b as f64)),
             (Val::Decimal(a), Val::Integer(b)) => CmpBool::from(*a < (*b as f64)),
-            (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(*a < (*b as f64)),
+            (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(
+                cmp_int_real(*b, *a)
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_lt),
+            ),
             (Val::Decimal(a), Val::Float(b)) => CmpBool::from(*a < (*b as f64)),
 
             (Val::Float(a), Val::TinyInt(b)) => CmpBool::from(*a < (*b as f32)),
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a < (*b as f32)),
-            (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a < (*b as f32)),
-            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a < (*b as f32)),
+            (Val::Float(a), Val::Integer(b)) => CmpBool::from(
+                cmp_int_real(i64::from(*b), f64::from(*a))
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_lt),
+            ),
+            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(
+                cmp_int_real(*b, f64::from(*a))
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_lt),
+            ),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) < *b),
+            (Val::VarLen(a), Val::ConstLen(b)) | (Val::ConstLen(a), Val::VarLen(b)) => {
+                CmpBool::from(a < b)
+            },
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
@@ -1488,27 +1601,48 @@ impl Type for Value {
             (Val::Integer(a), Val::SmallInt(b)) => CmpBool::from(*a <= *b as i32),
             (Val::Integer(a), Val::BigInt(b)) => CmpBool::from(*a as i64 <= *b),
             (Val::Integer(a), Val::Decimal(b)) => CmpBool::from(*a as f64 <= *b),
-            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f32 <= *b),
+            (Val::Integer(a), Val::Float(b)) => CmpBool::from(
+                cmp_int_real(i64::from(*a), f64::from(*b)).is_some_and(Ordering::is_le),
+            ),
 
             (Val::BigInt(a), Val::TinyInt(b)) => CmpBool::from(*a <= *b as i64),
             (Val::BigInt(a), Val::SmallInt(b)) => CmpBool::from(*a <= *b as i64),
             (Val::BigInt(a), Val::Integer(b)) => CmpBool::from(*a <= *b as i64),
-            (Val::BigInt(a), Val::Decimal(b)) => CmpBool::from(*a as f64 <= *b),
-            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f32 <= *b),
+            (Val::BigInt(a), Val::Decimal(b)) => {
+                CmpBool::from(cmp_int_real(*a, *b).is_some_and(Ordering::is_le))
+            },
+            (Val::BigInt(a), Val::Float(b)) => {
+                CmpBool::from(cmp_int_real(*a, f64::from(*b)).is_some_and(Ordering::is_le))
+            },
 
             (Val::Decimal(a), Val::TinyInt(b)) => CmpBool::from(*a <= *b as f64),
             (Val::Decimal(a), Val::SmallInt(b)) => CmpBool::from(*a <= *b as f64),
 
             (Val::Float(a), Val::TinyInt(b)) => CmpBool::from(*a <= *b as f32),
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a <= *b as f32),
-            (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a <= *b as f32),
-            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a <= *b as f32),
-            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(*a <= *b as f32),
+            (Val::Float(a), Val::Integer(b)) => CmpBool::from(
+                cmp_int_real(i64::from(*b), f64::from(*a))
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_le),
+            ),
+            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(
+                cmp_int_real(*b, f64::from(*a))
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_le),
+            ),
+            (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) <= *b),
             (Val::Decimal(a), Val::Integer(b)) => CmpBool::from(*a <= *b as f64),
-            (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(*a <= *b as f64),
+            (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(
+                cmp_int_real(*b, *a)
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_le),
+            ),
             (Val::Decimal(a), Val::Float(b)) => CmpBool::from(*a <= *b as f64),
 
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a <= *b),
+            (Val::VarLen(a), Val::ConstLen(b)) | (Val::ConstLen(a), Val::VarLen(b)) => {
+                CmpBool::from(a <= b)
+            },
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
@@ -1543,27 +1677,48 @@ impl Type for Value {
             (Val::Integer(a), Val::SmallInt(b)) => CmpBool::from(*a > *b as i32),
             (Val::Integer(a), Val::BigInt(b)) => CmpBool::from(*a as i64 > *b),
             (Val::Integer(a), Val::Decimal(b)) => CmpBool::from(*a as f64 > *b),
-            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f32 > *b),
+            (Val::Integer(a), Val::Float(b)) => CmpBool::from(
+                cmp_int_real(i64::from(*a), f64::from(*b)).is_some_and(Ordering::is_gt),
+            ),
 
             (Val::BigInt(a), Val::TinyInt(b)) => CmpBool::from(*a > *b as i64),
             (Val::BigInt(a), Val::SmallInt(b)) => CmpBool::from(*a > *b as i64),
             (Val::BigInt(a), Val::Integer(b)) => CmpBool::from(*a > *b as i64),
-            (Val::BigInt(a), Val::Decimal(b)) => CmpBool::from(*a as f64 > *b),
-            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f32 > *b),
+            (Val::BigInt(a), Val::Decimal(b)) => {
+                CmpBool::from(cmp_int_real(*a, *b).is_some_and(Ordering::is_gt))
+            },
+            (Val::BigInt(a), Val::Float(b)) => {
+                CmpBool::from(cmp_int_real(*a, f64::from(*b)).is_some_and(Ordering::is_gt))
+            },
 
             (Val::Decimal(a), Val::TinyInt(b)) => CmpBool::from(*a > *b as f64),
             (Val::Decimal(a), Val::SmallInt(b)) => CmpBool::from(*a > *b as f64),
             (Val::Decimal(a), Val::Integer(b)) => CmpBool::from(*a > *b as f64),
-            (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(*a > *b as f64),
+            (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(
+                cmp_int_real(*b, *a)
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_gt),
+            ),
             (Val::Decimal(a), Val::Float(b)) => CmpBool::from(*a > *b as f64),
 
             (Val::Float(a), Val::TinyInt(b)) => CmpBool::from(*a > *b as f32),
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a > *b as f32),
-            (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a > *b as f32),
-            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a > *b as f32),
+            (Val::Float(a), Val::Integer(b)) => CmpBool::from(
+                cmp_int_real(i64::from(*b), f64::from(*a))
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_gt),
+            ),
+            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(
+                cmp_int_real(*b, f64::from(*a))
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_gt),
+            ),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) > *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a > *b),
 
+            (Val::VarLen(a), Val::ConstLen(b)) | (Val::ConstLen(a), Val::VarLen(b)) => {
+                CmpBool::from(a > b)
+            },
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
@@ -1598,26 +1753,47 @@ impl Type for Value {
             (Val::Integer(a), Val::SmallInt(b)) => CmpBool::from(*a >= *b as i32),
             (Val::Integer(a), Val::BigInt(b)) => CmpBool::from(*a as i64 >= *b),
             (Val::Integer(a), Val::Decimal(b)) => CmpBool::from(*a as f64 >= *b),
-            (Val::Integer(a), Val::Float(b)) => CmpBool::from(*a as f32 >= *b),
+            (Val::Integer(a), Val::Float(b)) => CmpBool::from(
+                cmp_int_real(i64::from(*a), f64::from(*b)).is_some_and(Ordering::is_ge),
+            ),
 
             (Val::BigInt(a), Val::TinyInt(b)) => CmpBool::from(*a >= *b as i64),
             (Val::BigInt(a), Val::SmallInt(b)) => CmpBool::from(*a >= *b as i64),
             (Val::BigInt(a), Val::Integer(b)) => CmpBool::from(*a >= *b as i64),
-            (Val::BigInt(a), Val::Decimal(b)) => CmpBool::from(*a as f64 >= *b),
-            (Val::BigInt(a), Val::Float(b)) => CmpBool::from(*a as f32 >= *b),
+            (Val::BigInt(a), Val::Decimal(b)) => {
+                CmpBool::from(cmp_int_real(*a, *b).is_some_and(Ordering::is_ge))
+            },
+            (Val::BigInt(a), Val::Float(b)) => {
+                CmpBool::from(cmp_int_real(*a, f64::from(*b)).is_some_and(Ordering::is_ge))
+            },
 
             (Val::Decimal(a), Val::TinyInt(b)) => CmpBool::from(*a >= *b as f64),
             (Val::Decimal(a), Val::SmallInt(b)) => CmpBool::from(*a >= *b as f64),
             (Val::Decimal(a), Val::Integer(b)) => CmpBool::from(*a >= *b as f64),
-            (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(*a >= *b as f64),
+            (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(
+                cmp_int_real(*b, *a)
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_ge),
+            ),
             (Val::Decimal(a), Val::Float(b)) => CmpBool::from(*a >= *b as f64),
 
             (Val::Float(a), Val::TinyInt(b)) => CmpBool::from(*a >= *b as f32),
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a >= *b as f32),
-            (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a >= *b as f32),
-            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a >= *b as f32),
-            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(*a >= *b as f32),
+            (Val::Float(a), Val::Integer(b)) => CmpBool::from(
+                cmp_int_real(i64::from(*b), f64::from(*a))
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_ge),
+            ),
+            (Val::Float(a), Val::BigInt(b)) => CmpBool::from(
+                cmp_int_real(*b, f64::from(*a))
+                    .map(Ordering::reverse)
+                    .is_some_and(Ordering::is_ge),
+            ),
+            (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) >= *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a >= *b),
+            (Val::VarLen(a), Val::ConstLen(b)) | (Val::ConstLen(a), Val::VarLen(b)) => {
+                CmpBool::from(a >= b)
+            },
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
@@ -1635,44 +1811,48 @@ impl Type for Value {
         }
 
         match (&self.value_, &other.value_) {
-            (Val::Integer(a), Val::Integer(b)) => {
-                Ok(Value::new_with_type(Val::Integer(a + b), TypeId::Integer))
-            },
-            (Val::BigInt(a), Val::BigInt(b)) => {
-                Ok(Value::new_with_type(Val::BigInt(a + b), TypeId::BigInt))
-            },
+            (Val::Integer(a), Val::Integer(b)) => Ok(Value::new_with_type(
+                Val::Integer(in_range(a.checked_add(*b))?),
+                TypeId::Integer,
+            )),
+            (Val::BigInt(a), Val::BigInt(b)) => Ok(Value::new_with_type(
+                Val::BigInt(in_range(a.checked_add(*b))?),
+                TypeId::BigInt,
+            )),
             (Val::Integer(a), Val::BigInt(b)) => Ok(Value::new_with_type(
-                Val::BigInt(*a as i64 + b),
+                Val::BigInt(in_range((*a as i64).checked_add(*b))?),
                 TypeId::BigInt,
             )),
             (Val::BigInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::BigInt(a + *b as i64),
+                Val::BigInt(in_range(a.checked_add(*b as i64))?),
                 TypeId::BigInt,
             )),
             (Val::Decimal(a), Val::Decimal(b)) => {
                 Ok(Value::new_with_type(Val::Decimal(a + b), TypeId::Decimal))
             },
-            (Val::SmallInt(a), Val::SmallInt(b)) => {
-                Ok(Value::new_with_type(Val::SmallInt(a + b), TypeId::SmallInt))
-            },
-            (Val::TinyInt(a), Val::TinyInt(b)) => {
-                Ok(Value::new_with_type(Val::TinyInt(a + b), TypeId::TinyInt))
-            },
+            (Val::SmallInt(a), Val::SmallInt(b)) => Ok(Value::new_with_type(
+                Val::SmallInt(in_range(a.checked_add(*b))?),
+                TypeId::SmallInt,
+            )),
+            (Val::TinyInt(a), Val::TinyInt(b)) => Ok(Value::new_with_type(
+                Val::TinyInt(in_range(a.checked_add(*b))?),
+                TypeId::TinyInt,
+            )),
             // Promote smaller types to larger ones
             (Val::TinyInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::Integer(*a as i32 + b),
+                Val::Integer(in_range((*a as i32).checked_add(*b))?),
                 TypeId::Integer,
             )),
             (Val::Integer(a), Val::TinyInt(b)) => Ok(Value::new_with_type(
-                Val::Integer(a + *b as i32),
+                Val::Integer(in_range(a.checked_add(*b as i32))?),
                 TypeId::Integer,
             )),
             (Val::SmallInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::Integer(*a as i32 + b),
+                Val::Integer(in_range((*a as i32).checked_add(*b))?),
                 TypeId::Integer,
             )),
             (Val::Integer(a), Val::SmallInt(b)) => Ok(Value::new_with_type(
-                Val::Integer(a + *b as i32),
+                Val::Integer(in_range(a.checked_add(*b as i32))?),
                 TypeId::Integer,
             )),
 
@@ -1683,9 +1863,10 @@ impl Type for Value {
             (Val::Timestamp(_), _) => Err("Cannot add Timestamp values".to_string()),
             (Val::Date(_), _) => Err("Cannot add Date values".to_string()),
             (Val::Time(_), _) => Err("Cannot add Time values".to_string()),
-            (Val::Interval(a), Val::Interval(b)) => {
-                Ok(Value::new_with_type(Val::Interval(a + b), TypeId::Interval))
-            },
+            (Val::Interval(a), Val::Interval(b)) => Ok(Value::new_with_type(
+                Val::Interval(in_range(a.checked_add(*b))?),
+                TypeId::Interval,
+            )),
             (Val::VarLen(a), Val::VarLen(b)) => Ok(Value::new_with_type(
                 Val::VarLen(a.clone() + b),
                 TypeId::VarChar,
@@ -1722,26 +1903,41 @@ impl Type for Value {
     }
 
     fn subtract(&self, other: &Value) -> Result<Value, String> {
+        if self.is_null() || other.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
         match (self.get_type_id(), other.get_type_id()) {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a - b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(in_range(a.checked_sub(b))?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a - b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(in_range(a.checked_sub(b))?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a - b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(in_range(a.checked_sub(b))?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a - b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(in_range(a.checked_sub(b))?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1769,7 +1965,7 @@ impl Type for Value {
                 let b = other.get_val();
                 if let (Val::Interval(a_val), Val::Interval(b_val)) = (a, b) {
                     Ok(Value::new_with_type(
-                        Val::Interval(a_val - b_val),
+                        Val::Interval(in_range(a_val.checked_sub(*b_val))?),
                         TypeId::Interval,
                     ))
                 } else {
@@ -1796,26 +1992,41 @@ impl Type for Value {
     }
 
     fn multiply(&self, other: &Value) -> Result<Value, String> {
+        if self.is_null() || other.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
         match (self.get_type_id(), other.get_type_id()) {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a * b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(in_range(a.checked_mul(b))?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a * b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(in_range(a.checked_mul(b))?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a * b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(in_range(a.checked_mul(b))?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a * b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(in_range(a.checked_mul(b))?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1859,6 +2070,9 @@ impl Type for Value {
     }
 
     fn divide(&self, other: &Value) -> Result<Value, String> {
+        if self.is_null() || other.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
         if self.is_zero(other) {
             return Err("Division by zero".to_string());
         }
@@ -1866,22 +2080,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a / b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(in_range(a.checked_div(b))?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a / b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(in_range(a.checked_div(b))?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a / b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(in_range(a.checked_div(b))?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a / b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(in_range(a.checked_div(b))?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1934,7 +2160,7 @@ impl Type for Value {
         match (self.get_type_id(), other.get_type_id()) {
             (TypeId::Integer, TypeId::Integer) => {
                 if let (Ok(a), Ok(b)) = (self.as_integer(), other.as_integer()) {
-                    Value::new_with_type(Val::Integer(a % b), TypeId::Integer)
+                    Value::new_with_type(Val::Integer(a.wrapping_rem(b)), TypeId::Integer)
                 } else {
                     Value::new(Val::Null)
                 }
@@ -1968,14 +2194,14 @@ impl Type for Value {
             Val::Integer(i) => Ok(*i),
             Val::TinyInt(i) => Ok(*i as i32),
             Val::SmallInt(i) => Ok(*i as i32),
-            Val::BigInt(i) => Ok(*i as i32),
-            Val::Decimal(f) => Ok(*f as i32),
-            Val::Float(f) => Ok(*f as i32),
+            Val::BigInt(i) => int_to_int(*i),
+            Val::Decimal(f) => real_to_int(*f),
+            Val::Float(f) => real_to_int(f64::from(*f)),
             Val::Boolean(b) => Ok(if *b { 1 } else { 0 }),
-            Val::Timestamp(t) => Ok(*t as i32),
+            Val::Timestamp(t) => i32::try_from(*t).map_err(|_| format!("Value {} out of range", t)),
             Val::Date(d) => Ok(*d),
             Val::Time(t) => Ok(*t),
-            Val::Interval(i) => Ok(*i as i32),
+            Val::Interval(i) => int_to_int(*i),
             Val::VarLen(s) | Val::ConstLen(s) => s
                 .parse()
                 .map_err(|e| format!("Cannot convert string to integer: {}", e)),
@@ -1996,10 +2222,10 @@ impl Type for Value {
             Val::Integer(i) => Ok(*i as i64),
             Val::SmallInt(i) => Ok(*i as i64),
             Val::TinyInt(i) => Ok(*i as i64),
-            Val::Decimal(f) => Ok(*f as i64),
-            Val::Float(f) => Ok(*f as i64),
+            Val::Decimal(f) => real_to_int(*f),
+            Val::Float(f) => real_to_int(f64::from(*f)),
             Val::Boolean(b) => Ok(if *b { 1 } else { 0 }),
-            Val::Timestamp(t) => Ok(*t as i64),
+            Val::Timestamp(t) => i64::try_from(*t).map_err(|_| format!("Value {} out of range", t)),
             Val::Date(d) => Ok(*d as i64),
             Val::Time(t) => Ok(*t as i64),
             Val::Interval(i) => Ok(*i),
@@ -2021,15 +2247,15 @@ impl Type for Value {
         match &self.value_ {
             Val::SmallInt(i) => Ok(*i),
             Val::TinyInt(i) => Ok(*i as i16),
-            Val::Integer(i) => Ok(*i as i16),
-            Val::BigInt(i) => Ok(*i as i16),
-            Val::Decimal(f) => Ok(*f as i16),
-            Val::Float(f) => Ok(*f as i16),
+            Val::Integer(i) => int_to_int(i64::from(*i)),
+            Val::BigInt(i) => int_to_int(*i),
+            Val::Decimal(f) => real_to_int(*f),
+            Val::Float(f) => real_to_int(f64::from(*f)),
             Val::Boolean(b) => Ok(if *b { 1 } else { 0 }),
-            Val::Timestamp(t) => Ok(*t as i16),
-            Val::Date(d) => Ok(*d as i16),
-            Val::Time(t) => Ok(*t as i16),
-            Val::Interval(i) => Ok(*i as i16),
+            Val::Timestamp(t) => i16::try_from(*t).map_err(|_| format!("Value {} out of range", t)),
+            Val::Date(d) => int_to_int(i64::from(*d)),
+            Val::Time(t) => int_to_int(i64::from(*t)),
+            Val::Interval(i) => int_to_int(*i),
             Val::VarLen(s) | Val::ConstLen(s) => s
                 .parse()
                 .map_err(|e| format!("Cannot convert string to smallint: {}", e)),
@@ -2047,16 +2273,16 @@ impl Type for Value {
     fn as_tinyint(&self) -> Result<i8, String> {
         match &self.value_ {
             Val::TinyInt(i) => Ok(*i),
-            Val::SmallInt(i) => Ok(*i as i8),
-            Val::Integer(i) => Ok(*i as i8),
-            Val::BigInt(i) => Ok(*i as i8),
-            Val::Decimal(f) => Ok(*f as i8),
-            Val::Float(f) => Ok(*f as i8),
+            Val::SmallInt(i) => int_to_int(i64::from(*i)),
+            Val::Integer(i) => int_to_int(i64::from(*i)),
+            Val::BigInt(i) => int_to_int(*i),
+            Val::Decimal(f) => real_to_int(*f),
+            Val::Float(f) => real_to_int(f64::from(*f)),
             Val::Boolean(b) => Ok(if *b { 1 } else { 0 }),
-            Val::Timestamp(t) => Ok(*t as i8),
-            Val::Date(d) => Ok(*d as i8),
-            Val::Time(t) => Ok(*t as i8),
-            Val::Interval(i) => Ok(*i as i8),
+            Val::Timestamp(t) => i8::try_from(*t).map_err(|_| format!("Value {} out of range", t)),
+            Val::Date(d) => int_to_int(i64::from(*d)),
+            Val::Time(t) => int_to_int(i64::from(*t)),
+            Val::Interval(i) => int_to_int(*i),
             Val::VarLen(s) | Val::ConstLen(s) => s
                 .parse()
                 .map_err(|e| format!("Cannot convert string to tinyint: {}", e)),
-- 
2.43.0


From c5ab7a0376242af7ac5c44f27f6838ef6f9d0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:23 +0000
Subject: [PATCH 24/56] fix: comparisons give the same outcome either way
 round, and arithmetic treats joins and NULLs alike

---
 .../expressions/arithmetic_expression.rs      | 130 +++---------------
 .../expressions/comparison_expression.rs      |  88 ++++++------
 2 files changed, 65 insertions(+), 153 deletions(-)

diff --git a/src/sql/execution/expressions/arithmetic_expression.rs b/src/sql/execution/expressions/arithmetic_expression.rs
index db6e53e..75c6187 100644
--- a/src/sql/execution/expressions/arithmetic_expression.rs
+++ b/src/sql/execution/expressions/arithmetic_expression.rs
@@ -133,12 +133,16 @@ impl ArithmeticExpression {
             )),
         }
     }
-}
 
-impl ExpressionOps for ArithmeticExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let left_value = self.get_left().evaluate(tuple, schema)?;
-        let right_value = self.get_right().evaluate(tuple, schema)?;
+    /// Computes the result for the two operand values
+    fn compute(&self, left_value: &Value, right_value: &Value) -> Result<Value, ExpressionError> {
+        // Arithmetic with a NULL of a known type is NULL; untyped NULLs are a type error below
+        if (left_value.is_null() || right_value.is_null())
+            && left_value.get_type_id() != TypeId::Invalid
+            && right_value.get_type_id() != TypeId::Invalid
+        {
+            return Ok(Value::new_with_type(Val::Null, self.return_type.get_type()));
+        }
 
         match (left_value.get_val(), right_value.get_val()) {
             // TinyInt operations
@@ -748,6 +752,15 @@ impl ExpressionOps for ArithmeticExpression {
             _ => Err(ExpressionError::ArithmeticError(Unknown)),
         }
     }
+}
+
+impl ExpressionOps for ArithmeticExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let left_value = self.get_left().evaluate(tuple, schema)?;
+        let right_value = self.get_right().evaluate(tuple, schema)?;
+
+        self.compute(&left_value, &right_value)
+    }
 
     fn evaluate_join(
         &self,
@@ -763,112 +776,7 @@ impl ExpressionOps for ArithmeticExpression {
             self.get_right()
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        match (left_value.get_val(), right_value.get_val()) {
-            (Val::Integer(l), Val::Integer(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r),
-                    ArithmeticOp::Subtract => l.checked_sub(*r),
-                    ArithmeticOp::Multiply => l.checked_mul(*r),
-                    ArithmeticOp::Divide => l.checked_div(*r),
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::BigInt(l), Val::BigInt(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r),
-                    ArithmeticOp::Subtract => l.checked_sub(*r),
-                    ArithmeticOp::Multiply => l.checked_mul(*r),
-                    ArithmeticOp::Divide => l.checked_div(*r),
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::Decimal(l), Val::Decimal(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l + *r,
-                    ArithmeticOp::Subtract => l - *r,
-                    ArithmeticOp::Multiply => l * *r,
-                    ArithmeticOp::Divide => {
-                        if *r != 0.0 {
-                            Ok(l / *r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::Integer(l), Val::Decimal(r)) | (Val::Decimal(r), Val::Integer(l)) => {
-                let l = *l as f64;
-                let r = *r;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::BigInt(l), Val::Integer(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r as i64),
-                    ArithmeticOp::Subtract => l.checked_sub(*r as i64),
-                    ArithmeticOp::Multiply => l.checked_mul(*r as i64),
-                    ArithmeticOp::Divide => {
-                        if *r == 0 {
-                            return Err(ExpressionError::ArithmeticError(DivisionByZero));
-                        }
-                        l.checked_div(*r as i64)
-                    },
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::Integer(l), Val::BigInt(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => (*l as i64).checked_add(*r),
-                    ArithmeticOp::Subtract => (*l as i64).checked_sub(*r),
-                    ArithmeticOp::Multiply => (*l as i64).checked_mul(*r),
-                    ArithmeticOp::Divide => {
-                        if *r == 0 {
-                            return Err(ExpressionError::ArithmeticError(DivisionByZero));
-                        }
-                        (*l as i64).checked_div(*r)
-                    },
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::BigInt(l), Val::Decimal(r)) | (Val::Decimal(r), Val::BigInt(l)) => {
-                let l = *l as f64;
-                let r = *r;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            _ => Err(ExpressionError::ArithmeticError(Unknown)),
-        }
+        self.compute(&left_value, &right_value)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
diff --git a/src/sql/execution/expressions/comparison_expression.rs b/src/sql/execution/expressions/comparison_expression.rs
index 4d1c9be..ad479d0 100644
--- a/src/sql/execution/expressions/comparison_expression.rs
+++ b/src/sql/execution/expressions/comparison_expression.rs
@@ -92,47 +92,53 @@ impl ComparisonExpression {
             return Ok(CmpBool::CmpNull);
         }
 
-        // If types are different, try casting to make them comparable
-        if lhs.get_type_id() != rhs.get_type_id() {
-            // Try casting left to right type first
-            if let Ok(cast_lhs) = lhs.cast_to(rhs.get_type_id()) {
-                let cast_result = match self.comp_type {
-                    ComparisonType::Equal => cast_lhs.compare_equals(rhs),
-                    ComparisonType::NotEqual => cast_lhs.compare_not_equals(rhs),
-                    ComparisonType::LessThan => cast_lhs.compare_less_than(rhs),
-                    ComparisonType::LessThanOrEqual => cast_lhs.compare_less_than_equals(rhs),
-                    ComparisonType::GreaterThan => cast_lhs.compare_greater_than(rhs),
-                    ComparisonType::GreaterThanOrEqual => cast_lhs.compare_greater_than_equals(rhs),
-                    ComparisonType::IsNotNull => unreachable!(),
-                };
-                return Ok(cast_result);
-            }
-
-            // Try casting right to left type
-            if let Ok(cast_rhs) = rhs.cast_to(lhs.get_type_id()) {
-                let cast_result = match self.comp_type {
-                    ComparisonType::Equal => lhs.compare_equals(&cast_rhs),
-                    ComparisonType::NotEqual => lhs.compare_not_equals(&cast_rhs),
-                    ComparisonType::LessThan => lhs.compare_less_than(&cast_rhs),
-                    ComparisonType::LessThanOrEqual => lhs.compare_less_than_equals(&cast_rhs),
-                    ComparisonType::GreaterThan => lhs.compare_greater_than(&cast_rhs),
-                    ComparisonType::GreaterThanOrEqual => {
-                        lhs.compare_greater_than_equals(&cast_rhs)
-                    },
-                    ComparisonType::IsNotNull => unreachable!(),
-                };
-                return Ok(cast_result);
-            }
-
-            // If casting fails, types are incompatible for comparison
-            return Err(ExpressionError::TypeMismatch {
-                expected: lhs.get_type_id(),
-                actual: rhs.get_type_id(),
-            });
+        // Numbers compare with numbers and text with text whatever their widths. For other mixed
+        // types, convert one operand so that the outcome does not depend on the argument order.
+        if lhs.get_type_id() == rhs.get_type_id()
+            || (lhs.is_numeric() && rhs.is_numeric())
+            || (Self::is_text(lhs) && Self::is_text(rhs))
+        {
+            return Ok(self.compare(lhs, rhs));
+        }
+
+        let cast_lhs = || {
+            lhs.cast_to(rhs.get_type_id())
+                .map(|l| self.compare(&l, rhs))
+        };
+        let cast_rhs = || {
+            rhs.cast_to(lhs.get_type_id())
+                .map(|r| self.compare(lhs, &r))
+        };
+        let converted = if Self::conversion_rank(lhs) < Self::conversion_rank(rhs) {
+            cast_lhs().or_else(|_| cast_rhs())
+        } else {
+            cast_rhs().or_else(|_| cast_lhs())
+        };
+
+        // If casting fails both ways, return error
+        converted.map_err(|_| ExpressionError::TypeMismatch {
+            expected: lhs.get_type_id(),
+            actual: rhs.get_type_id(),
+        })
+    }
+
+    fn is_text(value: &Value) -> bool {
+        matches!(value.get_type_id(), TypeId::VarChar | TypeId::Char)
+    }
+
+    /// Of two operands of different types, the one of lower rank is converted: text to anything
+    /// else, booleans to numbers, and so on.
+    fn conversion_rank(value: &Value) -> u32 {
+        if Self::is_text(value) {
+            0
+        } else {
+            1 + value.get_type_id() as u32
         }
+    }
 
-        // Types are the same, perform direct comparison
-        let result = match self.comp_type {
+    /// Compares two values of comparable types
+    fn compare(&self, lhs: &Value, rhs: &Value) -> CmpBool {
+        match self.comp_type {
             ComparisonType::Equal => lhs.compare_equals(rhs),
             ComparisonType::NotEqual => lhs.compare_not_equals(rhs),
             ComparisonType::LessThan => lhs.compare_less_than(rhs),
@@ -140,9 +146,7 @@ impl ComparisonExpression {
             ComparisonType::GreaterThan => lhs.compare_greater_than(rhs),
             ComparisonType::GreaterThanOrEqual => lhs.compare_greater_than_equals(rhs),
             ComparisonType::IsNotNull => unreachable!(),
-        };
-
-        Ok(result)
+        }
     }
 }
 
-- 
2.43.0


From f276e9279758e5025c0caadf132e3378ef824016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:55 +0000
Subject: [PATCH 25/56] fix: aggregate NULLs, empty inputs and errors as SQL
 defines

COUNT(expr) counted NULLs, SUM over no rows was 0 and MIN/MAX over no rows an
invalid value, AVG of SMALLINT and TINYINT columns was always NULL, and a row
that could not be evaluated was dropped or panicked.
---
 .../executors/aggregation_executor.rs         | 92 ++++++++++---------
 1 file changed, 51 insertions(+), 41 deletions(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index bf21726..ca89114 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -48,8 +48,7 @@
 //! - **With `GROUP BY`**: Returns no rows for empty input
 //! - **Without `GROUP BY`**: Returns one row with identity values
 //!   - `COUNT`: 0
-//!   - `SUM`: 0 (or NULL depending on semantics)
-//!   - `MIN`/`MAX`: NULL
+//!   - `SUM`/`AVG`/`MIN`/`MAX`: NULL
 
 use std::collections::HashMap;
 use std::sync::Arc;
@@ -209,6 +208,8 @@ pub struct AggregationExecutor {
     initialized: bool,
     /// Finalized groups ready for output, consumed by `next()`.
     groups_to_return: Vec<(GroupKey, AggregateValues)>,
+    /// Why the input could not be aggregated; reported by every `next()`.
+    failed: Option<String>,
 }
 
 impl AggregationExecutor {
@@ -237,11 +238,16 @@ impl AggregationExecutor {
             groups: HashMap::new(),
             avg_counts: HashMap::new(),
             groups_to_return: Vec::new(),
+            failed: None,
             output_schema: plan.get_output_schema().clone(),
             initialized: false,
         }
     }
 
+    fn evaluate(expr: &Expression, tuple: &Tuple, schema: &Schema) -> Result<Value, String> {
+        expr.evaluate(tuple, schema).map_err(|e| e.to_string())
+    }
+
     /// Updates aggregate values for a group with a new input tuple.
     ///
     /// This is the core aggregation logic that processes each input tuple and
@@ -297,7 +303,7 @@ impl AggregationExecutor {
                     debug!("Aggregate type: {:?}", agg.get_agg_type());
                     match agg.get_agg_type() {
                         AggregationType::Sum => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = Self::evaluate(agg.get_arg(), tuple, schema)?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -307,6 +313,16 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Count | AggregationType::CountStar => {
+                            // COUNT(expr) counts the rows where expr is not NULL.
+                            if *agg.get_agg_type() == AggregationType::Count
+                                && let Some(arg) = agg.get_children().first()
+                                && Self::evaluate(arg, tuple, schema)?.is_null()
+                            {
+                                if agg_value.values[i].is_null() {
+                                    agg_value.values[i] = Value::new(0i64);
+                                }
+                                continue;
+                            }
                             let count = if agg_value.values[i].is_null() {
                                 Value::new(1i64)
                             } else {
@@ -315,7 +331,7 @@ impl AggregationExecutor {
                             agg_value.values[i] = count;
                         },
                         AggregationType::Min => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = Self::evaluate(agg.get_arg(), tuple, schema)?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -327,7 +343,7 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Max => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = Self::evaluate(agg.get_arg(), tuple, schema)?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -339,13 +355,15 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Avg => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = Self::evaluate(agg.get_arg(), tuple, schema)?;
                             if !arg_val.is_null() {
                                 // Track count for this average
                                 let count_key = (key.clone(), i);
                                 let current_count = avg_counts.entry(count_key).or_insert(0);
                                 *current_count += 1;
 
+                                // Sum as a decimal, whatever the type of the column
+                                let arg_val = arg_val.cast_to(TypeId::Decimal)?;
                                 if agg_value.values[i].is_null() {
                                     // First value - store as sum with proper type
                                     agg_value.values[i] = arg_val;
@@ -367,13 +385,13 @@ impl AggregationExecutor {
                     debug!("Column reference found in values");
                     // For group by columns, store the value only on first occurrence
                     if agg_value.values[i].is_null() {
-                        agg_value.values[i] = agg_expr.evaluate(tuple, schema).unwrap();
+                        agg_value.values[i] = Self::evaluate(agg_expr, tuple, schema)?;
                     }
                 },
                 _ => {
                     debug!("Other expression type found in aggregates");
                     // For other expressions, evaluate each time
-                    agg_value.values[i] = agg_expr.evaluate(tuple, schema).unwrap();
+                    agg_value.values[i] = Self::evaluate(agg_expr, tuple, schema)?;
                 },
             }
             debug!("Updated aggregate values: {:?}", agg_value.values);
@@ -421,11 +439,18 @@ impl AbstractExecutor for AggregationExecutor {
                         let aggregates = self.aggregate_exprs.clone();
 
                         // Compute group by key
-                        let mut key_values = Vec::new();
-                        for expr in &self.group_by_exprs {
-                            key_values.push(expr.evaluate(&tuple, schema).unwrap());
-                        }
-                        let key = GroupKey { values: key_values };
+                        let key_values: Result<Vec<Value>, String> = self
+                            .group_by_exprs
+                            .iter()
+                            .map(|expr| Self::evaluate(expr, &tuple, schema))
+                            .collect();
+                        let key = match key_values {
+                            Ok(values) => GroupKey { values },
+                            Err(e) => {
+                                self.failed = Some(e);
+                                break;
+                            },
+                        };
 
                         // Update aggregates for this group
                         if let Err(e) = Self::compute_aggregate(
@@ -437,18 +462,22 @@ impl AbstractExecutor for AggregationExecutor {
                             schema,
                         ) {
                             error!("Error computing aggregate: {}", e);
+                            self.failed = Some(e);
+                            break;
                         }
                     },
                     Ok(None) => break,
                     Err(e) => {
+                        // init() cannot fail: the error is reported by next()
                         debug!("Error from child executor: {}", e);
-                        return; // Initialize failed, but we don't propagate errors from init
+                        self.failed = Some(e.to_string());
+                        break;
                     },
                 }
             }
 
             // Handle empty input case
-            if !has_rows && self.group_by_exprs.is_empty() {
+            if !has_rows && self.failed.is_none() && self.group_by_exprs.is_empty() {
                 // Create empty group key for no group by
                 let key = GroupKey::new(vec![]);
 
@@ -462,13 +491,7 @@ impl AbstractExecutor for AggregationExecutor {
                             AggregationType::Count | AggregationType::CountStar => {
                                 agg_values.values[i] = Value::new(0i64);
                             },
-                            AggregationType::Sum => {
-                                agg_values.values[i] = Value::new(0); // or NULL depending on your requirements
-                            },
-                            AggregationType::Min | AggregationType::Max => {
-                                agg_values.values[i] = Value::from(TypeId::Invalid);
-                                // NULL for min/max
-                            },
+                            // SUM, AVG, MIN and MAX over no rows are NULL
                             _ => {},
                         }
                     }
@@ -527,6 +550,10 @@ impl AbstractExecutor for AggregationExecutor {
             self.init();
         }
 
+        if let Some(e) = &self.failed {
+            return Err(DBError::Execution(e.clone()));
+        }
+
         // Take the next group from the Vec
         if let Some((key, mut value)) = self.groups_to_return.pop() {
             debug!(
@@ -544,25 +571,8 @@ impl AbstractExecutor for AggregationExecutor {
                         debug!("Found count {} for group {:?}, aggregate {}", count, key, i);
                         debug!("Current value: {:?}", value.values[i]);
                         if count > 0 && !value.values[i].is_null() {
-                            // Convert sum to decimal and divide by count to get average
-                            let sum_as_decimal = match value.values[i].get_type_id() {
-                                TypeId::Integer => {
-                                    let int_val = value.values[i].as_integer()?;
-                                    Value::new(int_val as f64)
-                                },
-                                TypeId::BigInt => {
-                                    let bigint_val = value.values[i].as_bigint()?;
-                                    Value::new(bigint_val as f64)
-                                },
-                                TypeId::Decimal => value.values[i].clone(),
-                                _ => {
-                                    debug!(
-                                        "Unexpected sum type for AVG: {:?}",
-                                        value.values[i].get_type_id()
-                                    );
-                                    Value::new(Val::Null)
-                                },
-                            };
+                            // The sum is kept as a decimal: divide by count to get average
+                            let sum_as_decimal = value.values[i].clone();
 
                             let count_value = Value::new(count as f64);
                             debug!(
-- 
2.43.0


From 07663073bc14387a2d58101696b3bb5d770b3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:57 +0000
Subject: [PATCH 26/56] fix: TopN and TopNPerGroup order their rows, NULLs
 included

NULL keys compared equal to everything, so which rows were kept was arbitrary;
TopN returned its rows in heap order; errors were dropped.
---
 src/sql/execution/executors/topn_executor.rs  | 55 +++++++-------
 .../executors/topn_per_group_executor.rs      | 73 +++++++++----------
 2 files changed, 65 insertions(+), 63 deletions(-)

diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index 632906e..14adc8c 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -6,7 +6,7 @@ use log::{debug, trace};
 use parking_lot::RwLock;
 
 use crate::catalog::schema::Schema;
-use crate::common::exception::DBError;
+use crate::common::exception::{DBError, ExpressionError};
 use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
@@ -14,7 +14,6 @@ use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::topn_plan::TopNNode;
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
 /// Wrapper type for tuple and sort keys to implement custom ordering
@@ -27,12 +26,7 @@ struct TupleWithKeys {
 
 impl PartialEq for TupleWithKeys {
     fn eq(&self, other: &Self) -> bool {
-        self.sort_keys.len() == other.sort_keys.len()
-            && self
-                .sort_keys
-                .iter()
-                .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_equals(b) == CmpBool::CmpTrue)
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -45,17 +39,11 @@ impl PartialOrd for TupleWithKeys {
 impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
         // Compare sort keys in ascending order for min-heap
+        // NULL sorts before every other value, as in SortExecutor
         for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
+            match a.partial_cmp(b) {
+                Some(Ordering::Equal) | None => continue,
+                Some(ordering) => return ordering,
             }
         }
         Ordering::Equal
@@ -71,6 +59,8 @@ pub struct TopNExecutor {
     sorted_tuples: Vec<TupleWithKeys>,
     current_index: usize,
     initialized: bool,
+    /// Why the input could not be read; reported by every `next()`
+    failed: Option<String>,
 }
 
 impl TopNExecutor {
@@ -92,17 +82,18 @@ impl TopNExecutor {
             sorted_tuples: Vec::new(),
             current_index: 0,
             initialized: false,
+            failed: None,
         }
     }
 
     /// Evaluates the sort keys for a tuple based on the order by expressions
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, ExpressionError> {
         let schema = self.plan.get_output_schema();
         let keys = self
             .plan
             .get_sort_order_by()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
+            .map(|expr| expr.evaluate(tuple, schema))
             .collect();
         trace!("Evaluated sort keys for tuple: {:?}", keys);
         keys
@@ -128,7 +119,13 @@ impl AbstractExecutor for TopNExecutor {
         loop {
             match self.child.next() {
                 Ok(Some((tuple, rid))) => {
-                    let sort_keys = self.evaluate_sort_keys(&tuple);
+                    let sort_keys = match self.evaluate_sort_keys(&tuple) {
+                        Ok(keys) => keys,
+                        Err(e) => {
+                            self.failed = Some(e.to_string());
+                            break;
+                        },
+                    };
                     debug!("Processing tuple with sort keys: {:?}", sort_keys);
 
                     let tuple_with_keys = TupleWithKeys {
@@ -156,16 +153,20 @@ impl AbstractExecutor for TopNExecutor {
                     break;
                 },
                 Err(e) => {
+                    // init() cannot fail: the error is reported by next()
                     debug!("Error processing child tuple: {}", e);
+                    self.failed = Some(e.to_string());
                     break;
                 },
             }
         }
 
-        // Convert heap to sorted vector (will be in ascending order)
-        self.sorted_tuples = heap.into_iter().map(|Reverse(t)| t).collect();
-        // Reverse to get descending order
-        self.sorted_tuples.reverse();
+        // Largest first: ascending order of the reversed tuples
+        self.sorted_tuples = heap
+            .into_sorted_vec()
+            .into_iter()
+            .map(|Reverse(t)| t)
+            .collect();
 
         debug!(
             "TopNExecutor initialization complete. Number of tuples: {}",
@@ -179,6 +180,10 @@ impl AbstractExecutor for TopNExecutor {
             self.init();
         }
 
+        if let Some(e) = &self.failed {
+            return Err(DBError::Execution(e.clone()));
+        }
+
         if self.current_index < self.sorted_tuples.len() {
             let result = &self.sorted_tuples[self.current_index];
             self.current_index += 1;
diff --git a/src/sql/execution/executors/topn_per_group_executor.rs b/src/sql/execution/executors/topn_per_group_executor.rs
index 9a47062..7fbf651 100644
--- a/src/sql/execution/executors/topn_per_group_executor.rs
+++ b/src/sql/execution/executors/topn_per_group_executor.rs
@@ -6,7 +6,7 @@ use log::{debug, trace};
 use parking_lot::RwLock;
 
 use crate::catalog::schema::Schema;
-use crate::common::exception::DBError;
+use crate::common::exception::{DBError, ExpressionError};
 use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
@@ -14,7 +14,6 @@ use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::topn_per_group_plan::TopNPerGroupNode;
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
 /// Wrapper type for tuple and sort keys to implement custom ordering
@@ -27,12 +26,7 @@ struct TupleWithKeys {
 
 impl PartialEq for TupleWithKeys {
     fn eq(&self, other: &Self) -> bool {
-        self.sort_keys.len() == other.sort_keys.len()
-            && self
-                .sort_keys
-                .iter()
-                .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_not_equals(b) == CmpBool::CmpTrue)
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -45,17 +39,11 @@ impl PartialOrd for TupleWithKeys {
 impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
         // Compare sort keys in ascending order for min-heap
+        // NULL sorts before every other value, as in SortExecutor
         for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
+            match a.partial_cmp(b) {
+                Some(Ordering::Equal) | None => continue,
+                Some(ordering) => return ordering,
             }
         }
         Ordering::Equal
@@ -76,6 +64,8 @@ pub struct TopNPerGroupExecutor {
     current_group_tuples: Vec<TupleWithKeys>,
     current_tuple_index: usize,
     initialized: bool,
+    /// Why the input could not be read; reported by every `next()`
+    failed: Option<String>,
 }
 
 impl TopNPerGroupExecutor {
@@ -98,30 +88,31 @@ impl TopNPerGroupExecutor {
             current_group_tuples: Vec::new(),
             current_tuple_index: 0,
             initialized: false,
+            failed: None,
         }
     }
 
     /// Evaluates the sort keys for a tuple
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, ExpressionError> {
         let schema = self.plan.get_output_schema();
-        let keys: Vec<Value> = self
+        let keys = self
             .plan
             .get_sort_expressions()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
+            .map(|expr| expr.evaluate(tuple, schema))
             .collect();
         trace!("Evaluated sort keys for tuple: {:?}", keys);
         keys
     }
 
     /// Evaluates the group keys for a tuple
-    fn evaluate_group_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_group_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, ExpressionError> {
         let schema = self.plan.get_output_schema();
-        let keys: Vec<Value> = self
+        let keys = self
             .plan
             .get_group_expressions()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
+            .map(|expr| expr.evaluate(tuple, schema))
             .collect();
         trace!("Evaluated group keys for tuple: {:?}", keys);
         keys
@@ -130,19 +121,11 @@ impl TopNPerGroupExecutor {
     /// Compare two group keys using the Value comparison methods
     fn compare_group_keys(a: &[Value], b: &[Value]) -> Ordering {
         for (a_val, b_val) in a.iter().zip(b.iter()) {
-            match a_val.compare_less_than(b_val) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a_val.compare_greater_than(b_val) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
+            match a_val.partial_cmp(b_val) {
+                Some(Ordering::Equal) | None => continue,
+                Some(ordering) => return ordering,
             }
         }
-        // If all values are equal or we run out of values, compare lengths
         a.len().cmp(&b.len())
     }
 }
@@ -163,8 +146,16 @@ impl AbstractExecutor for TopNPerGroupExecutor {
         loop {
             match self.child.next() {
                 Ok(Some((tuple, rid))) => {
-                    let sort_keys = self.evaluate_sort_keys(&tuple);
-                    let group_keys = self.evaluate_group_keys(&tuple);
+                    let keys = self
+                        .evaluate_sort_keys(&tuple)
+                        .and_then(|sort_keys| Ok((sort_keys, self.evaluate_group_keys(&tuple)?)));
+                    let (sort_keys, group_keys) = match keys {
+                        Ok(keys) => keys,
+                        Err(e) => {
+                            self.failed = Some(e.to_string());
+                            break;
+                        },
+                    };
 
                     debug!(
                         "Processing tuple with sort keys: {:?}, group keys: {:?}",
@@ -200,8 +191,10 @@ impl AbstractExecutor for TopNPerGroupExecutor {
                 },
                 Ok(None) => break,
                 Err(e) => {
+                    // init() cannot fail: the error is reported by next()
                     debug!("Error from child executor: {}", e);
-                    return; // Initialize failed, but we don't propagate errors from init
+                    self.failed = Some(e.to_string());
+                    break;
                 },
             }
         }
@@ -223,6 +216,10 @@ impl AbstractExecutor for TopNPerGroupExecutor {
             self.init();
         }
 
+        if let Some(e) = &self.failed {
+            return Err(DBError::Execution(e.clone()));
+        }
+
         loop {
             // If we have tuples from the current group, return them
             if self.current_tuple_index < self.current_group_tuples.len() {
-- 
2.43.0


From 498dec3861535558a7cd24538dce3b5d887e87b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:06 +0000
Subject: [PATCH 27/56] fix: order the groups of an aggregation totally, NULL
 keys included

---
 src/sql/execution/executors/aggregation_executor.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index ca89114..d7a220a 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -505,14 +505,10 @@ impl AbstractExecutor for AggregationExecutor {
             self.groups_to_return.sort_by(|(key1, _), (key2, _)| {
                 // Compare each value in the group key
                 for (v1, v2) in key1.values.iter().zip(key2.values.iter()) {
-                    match v1.compare_less_than(v2) {
-                        CmpBool::CmpTrue => return std::cmp::Ordering::Less,
-                        CmpBool::CmpFalse => {
-                            if let CmpBool::CmpTrue = v2.compare_less_than(v1) {
-                                return std::cmp::Ordering::Greater;
-                            }
-                        },
-                        CmpBool::CmpNull => continue,
+                    // NULL first: a total order, which sort_by requires
+                    match v1.partial_cmp(v2) {
+                        Some(std::cmp::Ordering::Equal) | None => continue,
+                        Some(ordering) => return ordering,
                     }
                 }
                 std::cmp::Ordering::Equal
-- 
2.43.0


From 5317884d81c2c06cf5af028417e755c32c55587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:39 +0000
Subject: [PATCH 28/56] fix: BETWEEN, LIKE and CASE follow three-valued logic

BETWEEN and LIKE answered true or false for NULL operands, CASE matched NULL
with NULL and failed on an unknown condition, LIKE panicked inside multi-byte
characters and unary minus on the smallest integer.
---
 .../expressions/between_expression.rs         | 26 ++++++++++------
 .../execution/expressions/case_expression.rs  | 15 ++++++++--
 .../execution/expressions/like_expression.rs  | 30 +++++++++++--------
 .../expressions/unary_op_expression.rs        | 20 ++++++++-----
 4 files changed, 60 insertions(+), 31 deletions(-)

diff --git a/src/sql/execution/expressions/between_expression.rs b/src/sql/execution/expressions/between_expression.rs
index 3597c68..b4ae26e 100644
--- a/src/sql/execution/expressions/between_expression.rs
+++ b/src/sql/execution/expressions/between_expression.rs
@@ -7,7 +7,8 @@ use crate::catalog::schema::Schema;
 use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::value::Value;
+use crate::types_db::types::{CmpBool, Type};
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct BetweenExpression {
@@ -40,16 +41,26 @@ impl BetweenExpression {
     }
 }
 
+impl BetweenExpression {
+    /// Is value between low and high (inclusive)? NULL when that is unknown.
+    fn check(&self, value: &Value, low: &Value, high: &Value) -> Value {
+        let above = value.compare_greater_than_equals(low);
+        let below = value.compare_less_than_equals(high);
+        match (above, below) {
+            (CmpBool::CmpFalse, _) | (_, CmpBool::CmpFalse) => Value::new(self.negated),
+            (CmpBool::CmpTrue, CmpBool::CmpTrue) => Value::new(!self.negated),
+            _ => Value::new(Val::Null),
+        }
+    }
+}
+
 impl ExpressionOps for BetweenExpression {
     fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
         let value = self.expr.evaluate(tuple, schema)?;
         let low = self.low.evaluate(tuple, schema)?;
         let high = self.high.evaluate(tuple, schema)?;
 
-        // Check if value is between low and high (inclusive)
-        let between = value >= low && value <= high;
-
-        Ok(Value::new(if self.negated { !between } else { between }))
+        Ok(self.check(&value, &low, &high))
     }
 
     fn evaluate_join(
@@ -69,10 +80,7 @@ impl ExpressionOps for BetweenExpression {
             .high
             .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        // Check if value is between low and high (inclusive)
-        let between = value >= low && value <= high;
-
-        Ok(Value::new(if self.negated { !between } else { between }))
+        Ok(self.check(&value, &low, &high))
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
diff --git a/src/sql/execution/expressions/case_expression.rs b/src/sql/execution/expressions/case_expression.rs
index 7b7df1b..9e49458 100644
--- a/src/sql/execution/expressions/case_expression.rs
+++ b/src/sql/execution/expressions/case_expression.rs
@@ -8,6 +8,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
+use crate::types_db::types::CmpBool;
 use crate::types_db::value::{Val, Value};
 
 #[derive(Debug, Clone, PartialEq)]
@@ -64,6 +65,12 @@ impl CaseExpression {
         })
     }
 
+    /// Base and WHEN value match when they compare equal, which NULL never does.
+    fn same(base: &Value, when_value: &Value) -> bool {
+        use crate::types_db::types::Type;
+        base.compare_equals(when_value) == CmpBool::CmpTrue
+    }
+
     fn determine_return_type(
         then_exprs: &[Arc<Expression>],
         else_expr: Option<&Arc<Expression>>,
@@ -113,7 +120,7 @@ impl ExpressionOps for CaseExpression {
             let when_value = when_expr.evaluate(tuple, schema)?;
             let matches = match &base_value {
                 // For CASE expr WHEN ... form, compare base_value with when_value
-                Some(base) => base == &when_value,
+                Some(base) => Self::same(base, &when_value),
                 // For CASE WHEN ... form, check if when_value is true
                 None => match when_value.get_val() {
                     Val::Boolean(b) => {
@@ -123,6 +130,8 @@ impl ExpressionOps for CaseExpression {
                         );
                         *b
                     },
+                    // An unknown condition does not hold
+                    Val::Null => false,
                     _ => return Err(ExpressionError::InvalidType("Expected boolean".to_string())),
                 },
             };
@@ -176,9 +185,11 @@ impl ExpressionOps for CaseExpression {
             let when_value =
                 when_expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
             let matches = match &base_value {
-                Some(base) => base == &when_value,
+                Some(base) => Self::same(base, &when_value),
                 None => match when_value.get_val() {
                     Val::Boolean(b) => *b,
+                    // An unknown condition does not hold
+                    Val::Null => false,
                     _ => return Err(ExpressionError::InvalidType("Expected boolean".to_string())),
                 },
             };
diff --git a/src/sql/execution/expressions/like_expression.rs b/src/sql/execution/expressions/like_expression.rs
index 4bc970a..97885e8 100644
--- a/src/sql/execution/expressions/like_expression.rs
+++ b/src/sql/execution/expressions/like_expression.rs
@@ -7,7 +7,7 @@ use crate::catalog::schema::Schema;
 use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::value::Value;
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct LikeExpression {
@@ -44,6 +44,19 @@ impl LikeExpression {
         &self.children[1]
     }
 
+    /// NULL when the value or the pattern is.
+    fn check(&self, value: &Value, pattern: &Value) -> Value {
+        if value.is_null() || pattern.is_null() {
+            return Value::new(Val::Null);
+        }
+
+        let value_str = value.to_string();
+        let pattern_str = pattern.to_string();
+
+        let matches = self.matches_pattern(&value_str, &pattern_str, self.escape_char);
+        Value::new(if self.negated { !matches } else { matches })
+    }
+
     fn matches_pattern(&self, value: &str, pattern: &str, escape: Option<char>) -> bool {
         let mut pattern_chars = pattern.chars().peekable();
         let mut value_chars = value.chars().peekable();
@@ -74,7 +87,8 @@ impl LikeExpression {
                     }
 
                     let remaining_value: String = value_chars.clone().collect();
-                    for i in 0..=remaining_value.len() {
+                    let starts = remaining_value.char_indices().map(|(i, _)| i);
+                    for i in starts.chain([remaining_value.len()]) {
                         let test_value = &remaining_value[i..];
                         if self.matches_pattern(test_value, &remaining_pattern, escape) {
                             return true;
@@ -120,11 +134,7 @@ impl ExpressionOps for LikeExpression {
         let value = self.get_expr().evaluate(tuple, schema)?;
         let pattern = self.get_pattern().evaluate(tuple, schema)?;
 
-        let value_str = value.to_string();
-        let pattern_str = pattern.to_string();
-
-        let matches = self.matches_pattern(&value_str, &pattern_str, self.escape_char);
-        Ok(Value::new(if self.negated { !matches } else { matches }))
+        Ok(self.check(&value, &pattern))
     }
 
     fn evaluate_join(
@@ -141,11 +151,7 @@ impl ExpressionOps for LikeExpression {
             self.get_pattern()
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        let value_str = value.to_string();
-        let pattern_str = pattern.to_string();
-
-        let matches = self.matches_pattern(&value_str, &pattern_str, self.escape_char);
-        Ok(Value::new(if self.negated { !matches } else { matches }))
+        Ok(self.check(&value, &pattern))
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
diff --git a/src/sql/execution/expressions/unary_op_expression.rs b/src/sql/execution/expressions/unary_op_expression.rs
index fd49cb1..a39e9cc 100644
--- a/src/sql/execution/expressions/unary_op_expression.rs
+++ b/src/sql/execution/expressions/unary_op_expression.rs
@@ -69,6 +69,10 @@ impl UnaryOpExpression {
     }
 }
 
+fn overflow() -> ExpressionError {
+    ExpressionError::InvalidOperation("Integer overflow in unary minus".to_string())
+}
+
 impl ExpressionOps for UnaryOpExpression {
     fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
         let val = self.expr.evaluate(tuple, schema)?;
@@ -91,10 +95,10 @@ impl ExpressionOps for UnaryOpExpression {
                     return Ok(Value::new(Val::Null));
                 }
                 match val.get_val() {
-                    Val::TinyInt(i) => Ok(Value::new(-i)),
-                    Val::SmallInt(i) => Ok(Value::new(-i)),
-                    Val::Integer(i) => Ok(Value::new(-i)),
-                    Val::BigInt(i) => Ok(Value::new(-i)),
+                    Val::TinyInt(i) => i.checked_neg().map(Value::new).ok_or_else(overflow),
+                    Val::SmallInt(i) => i.checked_neg().map(Value::new).ok_or_else(overflow),
+                    Val::Integer(i) => i.checked_neg().map(Value::new).ok_or_else(overflow),
+                    Val::BigInt(i) => i.checked_neg().map(Value::new).ok_or_else(overflow),
                     Val::Decimal(f) => Ok(Value::new(-f)),
                     _ => Err(ExpressionError::InvalidOperation(
                         "Unary minus can only be applied to numeric values".to_string(),
@@ -137,10 +141,10 @@ impl ExpressionOps for UnaryOpExpression {
                     return Ok(Value::new(Val::Null));
                 }
                 match val.get_val() {
-                    Val::TinyInt(i) => Ok(Value::new(-i)),
-                    Val::SmallInt(i) => Ok(Value::new(-i)),
-                    Val::Integer(i) => Ok(Value::new(-i)),
-                    Val::BigInt(i) => Ok(Value::new(-i)),
+                    Val::TinyInt(i) => i.checked_neg().map(Value::new).ok_or_else(overflow),
+                    Val::SmallInt(i) => i.checked_neg().map(Value::new).ok_or_else(overflow),
+                    Val::Integer(i) => i.checked_neg().map(Value::new).ok_or_else(overflow),
+                    Val::BigInt(i) => i.checked_neg().map(Value::new).ok_or_else(overflow),
                     Val::Decimal(f) => Ok(Value::new(-f)),
                     _ => Err(ExpressionError::InvalidOperation(
                         "Unary minus can only be applied to numeric values".to_string(),
-- 
2.43.0


From 65cb6dd31d1e8cdda467fb0bd58cfe4e73b9cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:56 +0000
Subject: [PATCH 29/56] fix: TopN executors compare sort keys through the Type
 operations

---
 src/sql/execution/executors/topn_executor.rs        | 13 ++++++++++---
 .../execution/executors/topn_per_group_executor.rs  | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index 14adc8c..ceccb29 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -14,6 +14,7 @@ use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::topn_plan::TopNNode;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
 /// Wrapper type for tuple and sort keys to implement custom ordering
@@ -41,9 +42,15 @@ impl Ord for TupleWithKeys {
         // Compare sort keys in ascending order for min-heap
         // NULL sorts before every other value, as in SortExecutor
         for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.partial_cmp(b) {
-                Some(Ordering::Equal) | None => continue,
-                Some(ordering) => return ordering,
+            let ordering = b.is_null().cmp(&a.is_null());
+            if ordering != Ordering::Equal {
+                return ordering;
+            }
+            if a.compare_less_than(b) == CmpBool::CmpTrue {
+                return Ordering::Less;
+            }
+            if a.compare_greater_than(b) == CmpBool::CmpTrue {
+                return Ordering::Greater;
             }
         }
         Ordering::Equal
diff --git a/src/sql/execution/executors/topn_per_group_executor.rs b/src/sql/execution/executors/topn_per_group_executor.rs
index 7fbf651..657715e 100644
--- a/src/sql/execution/executors/topn_per_group_executor.rs
+++ b/src/sql/execution/executors/topn_per_group_executor.rs
@@ -14,6 +14,7 @@ use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::topn_per_group_plan::TopNPerGroupNode;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
 /// Wrapper type for tuple and sort keys to implement custom ordering
@@ -41,9 +42,15 @@ impl Ord for TupleWithKeys {
         // Compare sort keys in ascending order for min-heap
         // NULL sorts before every other value, as in SortExecutor
         for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.partial_cmp(b) {
-                Some(Ordering::Equal) | None => continue,
-                Some(ordering) => return ordering,
+            let ordering = b.is_null().cmp(&a.is_null());
+            if ordering != Ordering::Equal {
+                return ordering;
+            }
+            if a.compare_less_than(b) == CmpBool::CmpTrue {
+                return Ordering::Less;
+            }
+            if a.compare_greater_than(b) == CmpBool::CmpTrue {
+                return Ordering::Greater;
             }
         }
         Ordering::Equal
-- 
2.43.0


From 68e026f0bc6643df4ba1b1b171b0f5323837b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 30/56] fix: evaluate_join reaches the evaluate_join of every
 expression

---
 .../expressions/abstract_expression.rs        | 127 +++++++++++++-----
 1 file changed, 94 insertions(+), 33 deletions(-)

diff --git a/src/sql/execution/expressions/abstract_expression.rs b/src/sql/execution/expressions/abstract_expression.rs
index a7a201b..71aa8e7 100644
--- a/src/sql/execution/expressions/abstract_expression.rs
+++ b/src/sql/execution/expressions/abstract_expression.rs
@@ -236,15 +236,20 @@ impl ExpressionOps for Expression {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
             Self::Mock(expr) => {
-                // For mock expressions, we'll just use the regular evaluate
-                expr.evaluate(left_tuple, left_schema)
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Aggregate(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Aggregate(expr) => expr.evaluate(left_tuple, right_schema),
             Self::Window(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Cast(expr) => expr.evaluate(left_tuple, right_schema),
-            Self::Case(expr) => expr.evaluate(left_tuple, right_schema),
+            Self::Cast(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Case(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Function(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
@@ -263,37 +268,93 @@ impl ExpressionOps for Expression {
             Self::Extract(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Exists(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Regex(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::DateTime(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Coalesce(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Random(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Trim(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Interval(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::GroupingSets(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Filter(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::IsDistinct(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::Exists(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Regex(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::DateTime(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Coalesce(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Random(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Trim(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Interval(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::GroupingSets(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Filter(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::IsDistinct(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Position(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Method(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Struct(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Overlay(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Collate(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::AtTimeZone(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::MapAccess(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Tuple(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Wildcard(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::QualifiedWildcard(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::TypedString(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Subscript(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::IsCheck(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::BinaryOp(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Any(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::All(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::UnaryOp(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Convert(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::CeilFloor(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::Method(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Struct(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Overlay(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Collate(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::AtTimeZone(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::MapAccess(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Tuple(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Wildcard(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::QualifiedWildcard(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::TypedString(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Subscript(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::IsCheck(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::BinaryOp(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Any(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::All(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::UnaryOp(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Convert(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::CeilFloor(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Substring(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-- 
2.43.0


From cb792a244d859e0fe63254a753ebac5644abd592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 31/56] fix: LIKE matches the whole text of a CHAR value

---
 src/sql/execution/expressions/like_expression.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/like_expression.rs b/src/sql/execution/expressions/like_expression.rs
index 97885e8..b3f5bf7 100644
--- a/src/sql/execution/expressions/like_expression.rs
+++ b/src/sql/execution/expressions/like_expression.rs
@@ -50,13 +50,21 @@ impl LikeExpression {
             return Value::new(Val::Null);
         }
 
-        let value_str = value.to_string();
-        let pattern_str = pattern.to_string();
+        let value_str = Self::text(value);
+        let pattern_str = Self::text(pattern);
 
         let matches = self.matches_pattern(&value_str, &pattern_str, self.escape_char);
         Value::new(if self.negated { !matches } else { matches })
     }
 
+    /// The characters of a string value, or what any other value prints.
+    fn text(value: &Value) -> String {
+        match value.get_val() {
+            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+            _ => value.to_string(),
+        }
+    }
+
     fn matches_pattern(&self, value: &str, pattern: &str, escape: Option<char>) -> bool {
         let mut pattern_chars = pattern.chars().peekable();
         let mut value_chars = value.chars().peekable();
-- 
2.43.0


From 49efd67c277df034f794ef8503dc5e17f3801b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 32/56] fix: nested loop join reads its right side once, and
 pads with typed NULLs

---
 .../executors/nested_loop_join_executor.rs    | 107 +++++++-----------
 1 file changed, 42 insertions(+), 65 deletions(-)

diff --git a/src/sql/execution/executors/nested_loop_join_executor.rs b/src/sql/execution/executors/nested_loop_join_executor.rs
index dfee6f2..865eae6 100644
--- a/src/sql/execution/executors/nested_loop_join_executor.rs
+++ b/src/sql/execution/executors/nested_loop_join_executor.rs
@@ -188,10 +188,16 @@ pub struct JoinState {
     pub unmatched_left_tuples: Vec<(Arc<Tuple>, RID)>,
     pub unmatched_left_index: usize,
 
-    /// All right tuples seen during main join (for full outer joins)
+    /// All right tuples, in the order the right child returned them
     pub all_right_tuples: Vec<(Arc<Tuple>, RID)>,
 
-    /// Right tuples that have been matched (for full outer joins)
+    /// Whether the right child has been read into `all_right_tuples`
+    pub right_read: bool,
+
+    /// Next right tuple for the current left tuple
+    pub right_index: usize,
+
+    /// Positions of the right tuples that have been matched
     pub matched_right_tuples: std::collections::HashSet<usize>,
 }
 
@@ -215,6 +221,8 @@ impl JoinState {
             unmatched_left_tuples: Vec::new(),
             unmatched_left_index: 0,
             all_right_tuples: Vec::new(),
+            right_read: false,
+            right_index: 0,
             matched_right_tuples: std::collections::HashSet::new(),
         }
     }
@@ -224,6 +232,7 @@ impl JoinState {
         self.current_left_tuple = Some(left_tuple);
         self.current_left_matched = false;
         self.right_executor_exhausted = false;
+        self.right_index = 0;
     }
 
     /// Mark current left tuple as matched
@@ -428,8 +437,8 @@ impl TupleCombiner {
         if let Some(left_tuple) = left_tuple {
             combined_values.extend(left_tuple.get_values().iter().cloned());
         } else {
-            for _ in self.left_schema.get_columns() {
-                combined_values.push(Value::new(Val::Null));
+            for column in self.left_schema.get_columns() {
+                combined_values.push(Value::new_with_type(Val::Null, column.get_type()));
             }
         }
 
@@ -437,8 +446,8 @@ impl TupleCombiner {
         if let Some(right_tuple) = right_tuple {
             combined_values.extend(right_tuple.get_values().iter().cloned());
         } else {
-            for _ in self.right_schema.get_columns() {
-                combined_values.push(Value::new(Val::Null));
+            for column in self.right_schema.get_columns() {
+                combined_values.push(Value::new_with_type(Val::Null, column.get_type()));
             }
         }
 
@@ -895,25 +904,6 @@ impl ExecutorManager {
             Err(DBError::Execution("Executors not initialized".to_string()))
         }
     }
-
-    /// Reset right executor for new left tuple
-    pub fn reset_right_executor(&mut self) -> Result<(), DBError> {
-        if let Some(ref mut children) = self.children_executors {
-            // Recreate right executor
-            let right_child_plan = &self.plan.get_children()[1];
-            let new_right_executor = right_child_plan
-                .create_executor(self.context.clone())
-                .map_err(|e| {
-                    DBError::Execution(format!("Failed to recreate right executor: {}", e))
-                })?;
-
-            children[1] = new_right_executor;
-            children[1].init();
-            Ok(())
-        } else {
-            Err(DBError::Execution("Executors not initialized".to_string()))
-        }
-    }
 }
 
 // =============================================================================
@@ -1066,6 +1056,14 @@ impl NestedLoopJoinExecutor {
                 self.join_state.right_executor_exhausted
             );
 
+            // Right and full joins return every right tuple, even if there is no left one
+            if matches!(
+                self.join_handler.join_type,
+                JoinType::Right(_) | JoinType::RightOuter(_) | JoinType::FullOuter(_)
+            ) {
+                self.read_right_tuples()?;
+            }
+
             // Get or fetch current left tuple
             if self.join_state.current_left_tuple.is_none()
                 && !self.join_state.left_executor_exhausted
@@ -1074,7 +1072,7 @@ impl NestedLoopJoinExecutor {
                     Some(left_tuple) => {
                         info!("JOIN: Processing new left tuple");
                         self.join_state.reset_for_new_left_tuple(left_tuple);
-                        self.executor_manager.reset_right_executor()?;
+                        self.read_right_tuples()?;
                     },
                     None => {
                         info!("JOIN: Left executor exhausted");
@@ -1086,54 +1084,21 @@ impl NestedLoopJoinExecutor {
             // Process current left tuple with right tuples
             if let Some((left_tuple, left_rid)) = &self.join_state.current_left_tuple.clone() {
                 if !self.join_state.right_executor_exhausted {
-                    match self.executor_manager.get_next_right_tuple()? {
-                        Some((right_tuple, right_rid)) => {
-                            // For right and full outer joins, track all right tuples
-                            if matches!(
-                                self.join_handler.join_type,
-                                JoinType::Right(_)
-                                    | JoinType::RightOuter(_)
-                                    | JoinType::FullOuter(_)
-                            ) {
-                                // Check if this right tuple is already in our collection
-                                let tuple_exists = self
-                                    .join_state
-                                    .all_right_tuples
-                                    .iter()
-                                    .any(|(t, _)| t.get_values() == right_tuple.get_values());
-
-                                if !tuple_exists {
-                                    self.join_state
-                                        .add_right_tuple((right_tuple.clone(), right_rid));
-                                }
-                            }
-
+                    let index = self.join_state.right_index;
+                    match self.join_state.all_right_tuples.get(index).cloned() {
+                        Some((right_tuple, _)) => {
+                            self.join_state.right_index += 1;
                             if let Some(result) = self.join_handler.process_tuple_pair(
                                 left_tuple,
                                 &right_tuple,
                                 &mut self.join_state,
                             )? {
-                                // For right and full outer joins, mark the right tuple as matched
-                                if matches!(
-                                    self.join_handler.join_type,
-                                    JoinType::Right(_)
-                                        | JoinType::RightOuter(_)
-                                        | JoinType::FullOuter(_)
-                                ) {
-                                    // Find the index of this right tuple
-                                    if let Some(index) =
-                                        self.join_state.all_right_tuples.iter().position(
-                                            |(t, _)| t.get_values() == right_tuple.get_values(),
-                                        )
-                                    {
-                                        self.join_state.mark_right_tuple_matched(index);
-                                    }
-                                }
+                                self.join_state.mark_right_tuple_matched(index);
                                 return Ok(Some(result));
                             }
                         },
                         None => {
-                            info!("JOIN: Right executor exhausted for current left tuple");
+                            info!("JOIN: Right tuples exhausted for current left tuple");
                             self.join_state.right_executor_exhausted = true;
                         },
                     }
@@ -1176,6 +1141,18 @@ impl NestedLoopJoinExecutor {
         }
     }
 
+    /// Reads the right child once; each left tuple is then matched against
+    /// the tuples kept in the join state.
+    fn read_right_tuples(&mut self) -> Result<(), DBError> {
+        if !self.join_state.right_read {
+            while let Some(right_tuple) = self.executor_manager.get_next_right_tuple()? {
+                self.join_state.add_right_tuple(right_tuple);
+            }
+            self.join_state.right_read = true;
+        }
+        Ok(())
+    }
+
     /// Processes unmatched tuples for outer joins.
     ///
     /// Called after the main join phase to emit null-padded tuples for
-- 
2.43.0


From 7622cf5d47022d03a6fe735a58244d6af1cf8595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 33/56] fix: hash join uses every key, keeps duplicates and
 supports the outer joins

---
 .../execution/executors/hash_join_executor.rs | 314 ++++++++++--------
 1 file changed, 178 insertions(+), 136 deletions(-)

diff --git a/src/sql/execution/executors/hash_join_executor.rs b/src/sql/execution/executors/hash_join_executor.rs
index c391f69..8f63cf1 100644
--- a/src/sql/execution/executors/hash_join_executor.rs
+++ b/src/sql/execution/executors/hash_join_executor.rs
@@ -20,14 +20,14 @@
 //! │                                                             │
 //! │  BUILD PHASE (right child):                                 │
 //! │  ┌─────────────┐    ┌─────────────────────────────────┐    │
-//! │  │ Right Tuple │───▶│ Hash(key) → DiskExtendableHash  │    │
-//! │  │ (id=1, 25)  │    │ table[hash] = RID               │    │
+//! │  │ Right Tuple │───▶│ Hash(keys) → buckets            │    │
+//! │  │ (id=1, 25)  │    │ bucket[hash] += tuple           │    │
 //! │  └─────────────┘    └─────────────────────────────────┘    │
 //! │                                                             │
 //! │  PROBE PHASE (left child):                                  │
 //! │  ┌─────────────┐    ┌─────────────┐    ┌─────────────┐     │
-//! │  │ Left Tuple  │───▶│ Hash(key)   │───▶│ Lookup RID  │     │
-//! │  │ (id=1,Alice)│    │ → bucket    │    │ → Match!    │     │
+//! │  │ Left Tuple  │───▶│ Hash(keys)  │───▶│ Compare all │     │
+//! │  │ (id=1,Alice)│    │ → bucket    │    │ → Matches   │     │
 //! │  └─────────────┘    └─────────────┘    └─────────────┘     │
 //! │                              │                              │
 //! │                              ▼                              │
@@ -46,44 +46,49 @@
 //!
 //! ## Storage
 //!
-//! Uses `DiskExtendableHashTable` for the build phase, which supports
-//! spilling to disk for large datasets that exceed memory.
+//! The build side is kept in memory: several right rows may share a key, and
+//! outer joins return right rows which were never matched.
 
+use std::collections::HashMap;
+use std::collections::hash_map::DefaultHasher;
+use std::hash::{Hash, Hasher};
 use std::sync::Arc;
 
 use log::debug;
 use parking_lot::RwLock;
+use sqlparser::ast::JoinOperator;
 
 use crate::catalog::schema::Schema;
 use crate::common::exception::DBError;
 use crate::common::rid::RID;
-use crate::container::disk_extendable_hash_table::DiskExtendableHashTable;
-use crate::container::hash_function::HashFunction;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
-use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
+use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::hash_join_plan::HashJoinNode;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::types::{CmpBool, Type};
+use crate::types_db::value::{Val, Value};
 
 /// Executor for hash-based equi-join operations.
 ///
 /// `HashJoinExecutor` implements a classic hash join algorithm with a
-/// build phase (right child) and probe phase (left child). It uses a
-/// disk-backed extendable hash table for the build side.
+/// build phase (right child) and probe phase (left child).
 ///
 /// # Join Types
 ///
-/// Currently supports inner joins. The output contains only rows where
-/// the join key matches in both tables.
+/// Inner, left, right and full outer joins. Rows match when every key of
+/// one equals the corresponding key of the other; a NULL key matches nothing.
 ///
 /// # Algorithm
 ///
 /// 1. **Build Phase**: Consume all tuples from right child, hash the
-///    join key, and insert (key → RID) into the hash table.
+///    join keys, and add the tuple to the bucket of its hash.
 ///
-/// 2. **Probe Phase**: For each left tuple, hash the join key, probe
-///    the hash table, and emit combined tuples for matches.
+/// 2. **Probe Phase**: For each left tuple, hash the join keys, compare it
+///    with the tuples in the bucket, and emit a combined tuple for each match.
+///
+/// 3. **Unmatched right tuples** (right and full outer joins).
 ///
 /// # Example
 ///
@@ -99,9 +104,7 @@ use crate::storage::table::tuple::Tuple;
 ///
 /// # Memory Management
 ///
-/// Right-side tuples are stored in memory (`right_tuples` vector) for
-/// retrieval during the probe phase. The hash table itself may spill
-/// to disk via the buffer pool.
+/// Right-side tuples are stored in memory for retrieval during the probe phase.
 pub struct HashJoinExecutor {
     /// Shared execution context for buffer pool access.
     context: Arc<RwLock<ExecutionContext>>,
@@ -111,14 +114,18 @@ pub struct HashJoinExecutor {
     left_child: Box<dyn AbstractExecutor>,
     /// Right child executor (build side).
     right_child: Box<dyn AbstractExecutor>,
-    /// Disk-backed hash table built from right child.
-    hash_table: Option<DiskExtendableHashTable>,
-    /// Stored right tuples for lookup during probe phase.
-    right_tuples: Vec<(RID, Arc<Tuple>)>,
-    /// Current left tuple being probed (None if need next).
-    current_left_tuple: Option<(Arc<Tuple>, RID)>,
+    /// Right tuples with their keys and whether they were matched.
+    right_tuples: Vec<(Vec<Value>, Arc<Tuple>, bool)>,
+    /// Positions in `right_tuples` by key hash.
+    buckets: HashMap<u64, Vec<usize>>,
+    /// Joined tuples of the current left tuple still to be returned, last first.
+    pending: Vec<(Arc<Tuple>, RID)>,
+    /// Next right tuple to look at once the left child is exhausted.
+    unmatched_index: Option<usize>,
     /// Flag indicating whether initialization is complete.
     initialized: bool,
+    /// Why the build side could not be read; reported by every `next()`.
+    failed: Option<String>,
 }
 
 impl HashJoinExecutor {
@@ -148,85 +155,108 @@ impl HashJoinExecutor {
             plan,
             left_child,
             right_child,
-            hash_table: None,
             right_tuples: Vec::new(),
-            current_left_tuple: None,
+            buckets: HashMap::new(),
+            pending: Vec::new(),
+            unmatched_index: None,
             initialized: false,
+            failed: None,
         }
     }
 
-    /// Builds the hash table from the right child (build phase).
-    ///
-    /// Consumes all tuples from the right child executor, evaluates the
-    /// join key expression on each, and inserts (key → RID) into the
-    /// disk-backed hash table.
-    ///
-    /// # Returns
-    ///
-    /// * `true` - Hash table built successfully
-    /// * `false` - Build failed (hash table creation, key evaluation, or insert error)
-    ///
-    /// # Hash Table Configuration
-    ///
-    /// Creates a `DiskExtendableHashTable` with:
-    /// - Bucket size: 4 entries
-    /// - Initial depth: 4
-    /// - Max buckets: 100
-    ///
-    /// # Side Effects
-    ///
-    /// - Populates `self.hash_table` with the built hash table
-    /// - Populates `self.right_tuples` with (RID, Tuple) pairs for lookup
-    fn build_hash_table(&mut self) -> bool {
-        debug!("Building hash table from right child");
+    /// Whether unmatched left (first) and right (second) tuples are returned.
+    fn outer(&self) -> Result<(bool, bool), DBError> {
+        match self.plan.get_join_type() {
+            JoinOperator::Inner(_) | JoinOperator::Join(_) => Ok((false, false)),
+            JoinOperator::Left(_) | JoinOperator::LeftOuter(_) => Ok((true, false)),
+            JoinOperator::Right(_) | JoinOperator::RightOuter(_) => Ok((false, true)),
+            JoinOperator::FullOuter(_) => Ok((true, true)),
+            other => Err(DBError::Execution(format!(
+                "Unsupported join type: {:?}",
+                other
+            ))),
+        }
+    }
 
-        let hash_table = match DiskExtendableHashTable::new(
-            "hash_join_table".to_string(),
-            self.get_executor_context().read().get_buffer_pool_manager(),
-            HashFunction::new(),
-            4,
-            4,
-            100,
-        ) {
-            Ok(ht) => ht,
-            Err(_) => return false,
-        };
+    /// Hashes keys so that keys which compare equal hash equal, whatever
+    /// their numeric types.
+    fn hash_keys(keys: &[Value]) -> u64 {
+        let mut hasher = DefaultHasher::new();
+        for key in keys {
+            let real = match key.get_val() {
+                Val::TinyInt(i) => *i as f64,
+                Val::SmallInt(i) => *i as f64,
+                Val::Integer(i) => *i as f64,
+                Val::BigInt(i) => *i as f64,
+                Val::Decimal(f) => *f,
+                Val::Float(f) => *f as f64,
+                Val::VarLen(s) => {
+                    s.trim_end().hash(&mut hasher);
+                    continue;
+                },
+                Val::ConstLen(s) => {
+                    s.trim_end().hash(&mut hasher);
+                    continue;
+                },
+                // Other types share a bucket; the comparison tells them apart
+                _ => continue,
+            };
+            (real + 0.0).to_bits().hash(&mut hasher);
+        }
+        hasher.finish()
+    }
 
-        self.hash_table = Some(hash_table);
+    fn keys(
+        expressions: &[Arc<Expression>],
+        tuple: &Tuple,
+        schema: &Schema,
+    ) -> Result<Vec<Value>, DBError> {
+        expressions
+            .iter()
+            .map(|e| e.evaluate(tuple, schema))
+            .collect::<Result<_, _>>()
+            .map_err(|e| DBError::Execution(format!("Join key evaluation error: {}", e)))
+    }
 
+    /// Reads the right child into the hash buckets (build phase).
+    fn build_hash_table(&mut self) -> Result<(), DBError> {
+        debug!("Building hash table from right child");
+        self.outer()?;
         self.right_child.init();
+        while let Some((tuple, _)) = self.right_child.next()? {
+            let keys = Self::keys(
+                self.plan.get_right_key_expressions(),
+                &tuple,
+                self.plan.get_right_schema(),
+            )?;
+            self.buckets
+                .entry(Self::hash_keys(&keys))
+                .or_default()
+                .push(self.right_tuples.len());
+            self.right_tuples.push((keys, tuple, false));
+        }
+        Ok(())
+    }
 
-        loop {
-            match self.right_child.next() {
-                Ok(Some((tuple, rid))) => {
-                    let key = match self.plan.get_right_key_expressions()[0]
-                        .evaluate(&tuple, self.plan.get_right_schema())
-                    {
-                        Ok(value) => value,
-                        Err(_) => {
-                            debug!("Failed to evaluate right key expression");
-                            return false;
-                        },
-                    };
-
-                    if let Some(ref mut ht) = self.hash_table
-                        && !ht.insert(key, rid)
-                    {
-                        debug!("Failed to insert into hash table");
-                        return false;
-                    }
-
-                    self.right_tuples.push((rid, tuple));
-                },
-                Ok(None) => break,
-                Err(e) => {
-                    debug!("Error from right child executor: {}", e);
-                    return false;
-                },
+    /// Joins a left tuple with a right one; NULLs stand for a missing side.
+    fn combine(&self, left: Option<&Tuple>, right: Option<&Tuple>) -> Arc<Tuple> {
+        let mut values = Vec::new();
+        for (tuple, schema) in [
+            (left, self.plan.get_left_schema()),
+            (right, self.plan.get_right_schema()),
+        ] {
+            match tuple {
+                Some(tuple) => values.extend(tuple.get_values().iter().cloned()),
+                None => values.extend(
+                    schema
+                        .get_columns()
+                        .iter()
+                        .map(|c| Value::new_with_type(Val::Null, c.get_type())),
+                ),
             }
         }
-
-        true
+        let rid = left.or(right).map_or(RID::new(0, 0), |t| t.get_rid());
+        Arc::new(Tuple::new(&values, self.plan.get_output_schema(), rid))
     }
 }
 
@@ -244,15 +274,15 @@ impl AbstractExecutor for HashJoinExecutor {
     ///
     /// # Failure Handling
     ///
-    /// If hash table construction fails, `initialized` remains `false` and
-    /// subsequent `next()` calls will return `None`.
+    /// If the right child cannot be read, subsequent `next()` calls return
+    /// the error.
     fn init(&mut self) {
         if !self.initialized {
             debug!("Initializing HashJoinExecutor");
 
-            if !self.build_hash_table() {
-                debug!("Failed to build hash table");
-                return;
+            if let Err(e) = self.build_hash_table() {
+                debug!("Failed to build hash table: {}", e);
+                self.failed = Some(e.to_string());
             }
 
             self.left_child.init();
@@ -269,11 +299,11 @@ impl AbstractExecutor for HashJoinExecutor {
     ///
     /// # Probe Algorithm
     ///
-    /// 1. Get next left tuple (if current is None)
-    /// 2. Evaluate left key expression
-    /// 3. Probe hash table with key
-    /// 4. If match found: combine tuples and return
-    /// 5. If no match: advance to next left tuple
+    /// 1. Get next left tuple once the matches of the last one are returned
+    /// 2. Evaluate left key expressions
+    /// 3. Compare with the right tuples of the same hash
+    /// 4. Combine with each match, or with NULLs if an outer join has none
+    /// 5. After the last left tuple, return unmatched right tuples (outer join)
     ///
     /// # Returns
     ///
@@ -293,45 +323,57 @@ impl AbstractExecutor for HashJoinExecutor {
             return Ok(None);
         }
 
-        loop {
-            if self.current_left_tuple.is_none() {
-                match self.left_child.next()? {
-                    Some((tuple, rid)) => {
-                        self.current_left_tuple = Some((tuple, rid));
-                    },
-                    None => return Ok(None),
-                }
-            }
-
-            // Clone the values we need and drop the borrow immediately
-            let (left_tuple, left_rid) = {
-                let (tuple, rid) = self.current_left_tuple.as_ref().unwrap();
-                (tuple.clone(), *rid)
-            };
+        if let Some(e) = &self.failed {
+            return Err(DBError::Execution(e.clone()));
+        }
 
-            let key = match self.plan.get_left_key_expressions()[0]
-                .evaluate(&left_tuple, self.plan.get_left_schema())
-            {
-                Ok(value) => value,
-                Err(_) => {
-                    debug!("Failed to evaluate left key expression");
-                    self.current_left_tuple = None;
-                    continue;
-                },
+        let (left_outer, right_outer) = self.outer()?;
+        while self.unmatched_index.is_none() {
+            if let Some(joined) = self.pending.pop() {
+                return Ok(Some(joined));
+            }
+            let Some((left_tuple, left_rid)) = self.left_child.next()? else {
+                self.unmatched_index = Some(0);
+                break;
             };
-
-            if let Some(ref ht) = self.hash_table
-                && let Some(right_rid) = ht.get_value(&key)
-                && let Some((_, right_tuple)) =
-                    self.right_tuples.iter().find(|(rid, _)| *rid == right_rid)
-            {
-                let combined_tuple = Arc::new(left_tuple.combine(right_tuple));
-                self.current_left_tuple = None;
-                return Ok(Some((combined_tuple, left_rid)));
+            let keys = Self::keys(
+                self.plan.get_left_key_expressions(),
+                &left_tuple,
+                self.plan.get_left_schema(),
+            )?;
+            let bucket = self.buckets.get(&Self::hash_keys(&keys));
+            let matches: Vec<usize> = bucket
+                .into_iter()
+                .flatten()
+                .copied()
+                .filter(|&i| {
+                    keys.iter()
+                        .zip(&self.right_tuples[i].0)
+                        .all(|(l, r)| l.compare_equals(r) == CmpBool::CmpTrue)
+                })
+                .collect();
+            if matches.is_empty() && left_outer {
+                return Ok(Some((self.combine(Some(&left_tuple), None), left_rid)));
+            }
+            for &i in matches.iter().rev() {
+                self.right_tuples[i].2 = true;
+                let joined = self.combine(Some(&left_tuple), Some(&self.right_tuples[i].1));
+                self.pending.push((joined, left_rid));
             }
+        }
 
-            self.current_left_tuple = None;
+        while let Some(i) = self
+            .unmatched_index
+            .filter(|&i| i < self.right_tuples.len())
+        {
+            self.unmatched_index = Some(i + 1);
+            let (_, right_tuple, matched) = &self.right_tuples[i];
+            if right_outer && !matched {
+                let rid = right_tuple.get_rid();
+                return Ok(Some((self.combine(None, Some(right_tuple)), rid)));
+            }
         }
+        Ok(None)
     }
 
     /// Returns the output schema for joined tuples.
-- 
2.43.0


From b16fa12dc0aaa42aa8572a70acc515b743ad8c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 34/56] fix: the in-memory B+ tree orders NULL keys before all
 others

---
 src/storage/index/b_plus_tree.rs | 67 ++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index 3d8a413..dc82c0f 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -115,7 +115,7 @@
 //! | Concurrency | `RwLock` per node | Latch crabbing |
 //! | Use Case | Testing, small datasets | Production workloads |
 
-use std::cmp::PartialEq;
+use std::cmp::{Ordering, PartialEq};
 use std::fmt::Debug;
 use std::sync::Arc;
 
@@ -130,6 +130,16 @@ use crate::storage::table::tuple::Tuple;
 use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::{Val, Value};
 
+/// The order of two index keys: NULL, which no comparison holds for, precedes every value.
+fn key_order(a: &Value, b: &Value) -> Ordering {
+    match (a.is_null(), b.is_null()) {
+        (false, false) if a.compare_less_than(b) == CmpBool::CmpTrue => Ordering::Less,
+        (false, false) if a.compare_greater_than(b) == CmpBool::CmpTrue => Ordering::Greater,
+        (false, false) => Ordering::Equal,
+        (a_null, b_null) => b_null.cmp(&a_null),
+    }
+}
+
 #[derive(Debug, Clone, PartialEq)]
 pub enum NodeType {
     Internal,
@@ -238,16 +248,16 @@ impl BPlusTree {
                         let child_idx = node
                             .keys
                             .iter()
-                            .position(|k| k.compare_greater_than_equals(key) == CmpBool::CmpTrue)
+                            .position(|k| key_order(k, key).is_ge())
                             .unwrap_or(node.keys.len());
                         Some(Arc::clone(&node.children[child_idx]))
                     },
                     NodeType::Leaf => {
                         for (k, r) in node.keys.iter().zip(node.values.iter()) {
-                            if k.compare_greater_than(key) == CmpBool::CmpTrue {
+                            if key_order(k, key).is_gt() {
                                 return false;
                             }
-                            if *r == rid && k.compare_equals(key) == CmpBool::CmpTrue {
+                            if *r == rid && key_order(k, key).is_eq() {
                                 return true;
                             }
                         }
@@ -279,10 +289,10 @@ impl BPlusTree {
 
                     // Check each key to find potential paths
                     for (i, k) in node.keys.iter().enumerate() {
-                        if k.compare_greater_than(key) == CmpBool::CmpTrue {
+                        if key_order(k, key).is_gt() {
                             // If this key is greater, we need to check the left child
                             child_indices.push(i);
-                        } else if k.compare_equals(key) == CmpBool::CmpTrue {
+                        } else if key_order(k, key).is_eq() {
                             // If this key equals our search key, check both children
                             child_indices.push(i);
                             child_indices.push(i + 1);
@@ -311,7 +321,7 @@ impl BPlusTree {
                         debug!("Checking entry {} - Key: {:?}, RID: {:?}", i, k, r);
 
                         // Check for exact match
-                        if k.compare_equals(key) == CmpBool::CmpTrue && *r == rid {
+                        if key_order(k, key).is_eq() && *r == rid {
                             debug!("Found matching key-RID pair at position {}", i);
                             drop(node);
                             let mut node_write = current_node.write();
@@ -371,7 +381,7 @@ impl BPlusTree {
                     let child_idx = node
                         .keys
                         .iter()
-                        .position(|k| k.compare_greater_than_equals(&start_key) == CmpBool::CmpTrue)
+                        .position(|k| key_order(k, &start_key).is_ge())
                         .unwrap_or(0);
                     debug!("Selected child index: {}", child_idx);
                     let next_node = Arc::clone(&node.children[child_idx]);
@@ -393,11 +403,11 @@ impl BPlusTree {
 
             // Add values from current leaf that are within range
             for (key, rid) in node.keys.iter().zip(node.values.iter()) {
-                if key.compare_less_than(&start_key) == CmpBool::CmpTrue {
+                if key_order(key, &start_key).is_lt() {
                     continue;
                 }
-                if key.compare_greater_than(&end_key) == CmpBool::CmpTrue
-                    || (!include_end && key.compare_equals(&end_key) == CmpBool::CmpTrue)
+                if key_order(key, &end_key).is_gt()
+                    || (!include_end && key_order(key, &end_key).is_eq())
                 {
                     debug!("Found key beyond range, ending scan");
                     return Ok(entries);
@@ -621,12 +631,12 @@ impl BPlusTree {
 
     pub fn compare_keys(&self, key1: &Value, key2: &Value) -> CmpBool {
         // First check less than
-        if key1.compare_less_than(key2) == CmpBool::CmpTrue {
+        if key_order(key1, key2).is_lt() {
             return CmpBool::CmpTrue;
         }
 
         // Then check greater than
-        if key1.compare_greater_than(key2) == CmpBool::CmpTrue {
+        if key_order(key1, key2).is_gt() {
             return CmpBool::CmpTrue;
         }
 
@@ -634,14 +644,8 @@ impl BPlusTree {
         CmpBool::CmpFalse
     }
 
-    pub fn compare_keys_ordering(&self, key1: &Value, key2: &Value) -> std::cmp::Ordering {
-        if key1.compare_less_than(key2) == CmpBool::CmpTrue {
-            std::cmp::Ordering::Less
-        } else if key1.compare_greater_than(key2) == CmpBool::CmpTrue {
-            std::cmp::Ordering::Greater
-        } else {
-            std::cmp::Ordering::Equal
-        }
+    pub fn compare_keys_ordering(&self, key1: &Value, key2: &Value) -> Ordering {
+        key_order(key1, key2)
     }
 
     // Helper method to find insertion position in sorted order
@@ -653,12 +657,7 @@ impl BPlusTree {
         // This ensures proper routing in internal nodes
         let pos = keys
             .iter()
-            .position(|k| {
-                match k.compare_equals(key) {
-                    CmpBool::CmpTrue => false, // Keep looking, want to insert after equals
-                    _ => k.compare_greater_than(key) == CmpBool::CmpTrue,
-                }
-            })
+            .position(|k| key_order(k, key).is_gt())
             .unwrap_or(keys.len());
 
         debug!("Found insert position: {}", pos);
@@ -683,7 +682,7 @@ impl BPlusTree {
                 // Check entries before pos with same key
                 while i > 0 {
                     i -= 1;
-                    if node.keys[i].compare_equals(&key) == CmpBool::CmpTrue {
+                    if key_order(&node.keys[i], &key).is_eq() {
                         if node.values[i] == rid {
                             debug!("Found duplicate key-RID pair at position {}", i);
                             return false;
@@ -695,7 +694,7 @@ impl BPlusTree {
                 // Check entries from pos onwards with same key
                 i = pos;
                 while i < node.keys.len() {
-                    if node.keys[i].compare_equals(&key) == CmpBool::CmpTrue {
+                    if key_order(&node.keys[i], &key).is_eq() {
                         if node.values[i] == rid {
                             debug!("Found duplicate key-RID pair at position {}", i);
                             return false;
@@ -1640,6 +1639,16 @@ mod split_behavior_tests {
     use super::*;
     use crate::common::logger::initialize_logger;
 
+    /// The order of two index keys: NULL, which no comparison holds for, precedes every value.
+    fn key_order(a: &Value, b: &Value) -> Ordering {
+        match (a.is_null(), b.is_null()) {
+            (false, false) if a.compare_less_than(b) == CmpBool::CmpTrue => Ordering::Less,
+            (false, false) if a.compare_greater_than(b) == CmpBool::CmpTrue => Ordering::Greater,
+            (false, false) => Ordering::Equal,
+            (a_null, b_null) => b_null.cmp(&a_null),
+        }
+    }
+
     /// Test leaf node splitting behavior with a small order
     #[test]
     fn test_leaf_node_split() {
-- 
2.43.0


From fb1d0e7259f1f94cfd33814f8030aeb43f2ce3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 35/56] fix: IS DISTINCT FROM compares numbers of different
 types by value

---
 src/sql/execution/expressions/is_distinct_expression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/is_distinct_expression.rs b/src/sql/execution/expressions/is_distinct_expression.rs
index f601fde..022335c 100644
--- a/src/sql/execution/expressions/is_distinct_expression.rs
+++ b/src/sql/execution/expressions/is_distinct_expression.rs
@@ -8,6 +8,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
 #[derive(Clone, Debug, PartialEq)]
@@ -50,7 +51,7 @@ impl ExpressionOps for IsDistinctExpression {
         } else if left_val.is_null() || right_val.is_null() {
             true
         } else {
-            left_val != right_val
+            left_val.compare_equals(&right_val) != CmpBool::CmpTrue
         };
 
         Ok(Value::new(if self.negated {
@@ -79,7 +80,7 @@ impl ExpressionOps for IsDistinctExpression {
         } else if left_val.is_null() || right_val.is_null() {
             true // NULL IS DISTINCT FROM any non-NULL value
         } else {
-            left_val != right_val
+            left_val.compare_equals(&right_val) != CmpBool::CmpTrue
         };
 
         Ok(Value::new(if self.negated {
-- 
2.43.0


From f2f49c9816f6fb22383ad339836e36752ac735c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 36/56] fix: DISTINCT compares tuples by their values

---
 .../execution/executors/distinct_executor.rs  | 91 +++----------------
 1 file changed, 14 insertions(+), 77 deletions(-)

diff --git a/src/sql/execution/executors/distinct_executor.rs b/src/sql/execution/executors/distinct_executor.rs
index 055f6f0..8138a4c 100644
--- a/src/sql/execution/executors/distinct_executor.rs
+++ b/src/sql/execution/executors/distinct_executor.rs
@@ -24,8 +24,8 @@
 //! │                        │                                    │
 //! │                        ▼                                    │
 //! │  ┌─────────────────────────────────────────────────────┐    │
-//! │  │ HashSet<Vec<u8>>                                    │    │
-//! │  │  └─ Stores serialized tuple bytes                   │    │
+//! │  │ HashSet<Vec<Value>>                                 │    │
+//! │  │  └─ Stores the values of each tuple                 │    │
 //! │  │  └─ O(1) duplicate detection                        │    │
 //! │  └─────────────────────────────────────────────────────┘    │
 //! │                        │                                    │
@@ -36,20 +36,12 @@
 //!
 //! ## Tuple Comparison
 //!
-//! Tuples are compared by serializing all column values to bytes:
-//!
-//! | Type      | Serialization                        |
-//! |-----------|--------------------------------------|
-//! | INTEGER   | Little-endian 4-byte representation  |
-//! | BIGINT    | Little-endian 8-byte representation  |
-//! | VARCHAR   | Length prefix + UTF-8 bytes          |
-//! | BOOLEAN   | Single byte (0 or 1)                 |
-//! | DECIMAL   | Little-endian 8-byte representation  |
-//! | NULL      | Special marker byte (0xFF)           |
+//! Tuples are compared column by column, with the equality of `Value`; two NULLs
+//! count as equal.
 //!
 //! ## Memory Usage
 //!
-//! The executor stores one serialized copy of each unique tuple in memory.
+//! The executor stores one copy of each unique tuple in memory.
 //! For large result sets with high cardinality, this can consume significant
 //! memory.
 
@@ -65,21 +57,22 @@ use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
 use crate::storage::table::tuple::Tuple;
+#[cfg(test)]
 use crate::types_db::value::Val;
+use crate::types_db::value::Value;
 
 /// Executor for removing duplicate tuples from query results.
 ///
 /// `DistinctExecutor` implements hash-based duplicate elimination by
-/// maintaining a set of serialized tuple representations. Only the first
+/// maintaining a set of the tuples returned so far. Only the first
 /// occurrence of each unique tuple is returned.
 ///
 /// # Algorithm
 ///
 /// 1. Pull tuple from child executor
-/// 2. Serialize tuple values to byte vector
-/// 3. Check if bytes exist in hash set
-/// 4. If new: insert bytes, return tuple
-/// 5. If duplicate: skip, pull next tuple
+/// 2. Check if its values exist in hash set
+/// 3. If new: insert values, return tuple
+/// 4. If duplicate: skip, pull next tuple
 ///
 /// # Pipelining
 ///
@@ -104,8 +97,8 @@ pub struct DistinctExecutor {
     child_executor: Box<dyn AbstractExecutor>,
     /// Output schema (same as input schema).
     schema: Schema,
-    /// Set of serialized tuple bytes seen so far.
-    seen_tuples: HashSet<Vec<u8>>,
+    /// Values of the tuples seen so far.
+    seen_tuples: HashSet<Vec<Value>>,
     /// Flag indicating whether `init()` has been called.
     initialized: bool,
 }
@@ -129,57 +122,6 @@ impl DistinctExecutor {
             initialized: false,
         }
     }
-
-    /// Serializes tuple values to a byte vector for duplicate detection.
-    ///
-    /// Creates a deterministic byte representation of all tuple values that
-    /// can be used as a hash set key. The serialization is designed to
-    /// ensure that equal tuples produce identical byte sequences.
-    ///
-    /// # Arguments
-    ///
-    /// * `tuple` - The tuple to serialize.
-    ///
-    /// # Returns
-    ///
-    /// A `Vec<u8>` containing the serialized tuple data.
-    ///
-    /// # Serialization Format
-    ///
-    /// Each value is serialized according to its type:
-    /// - **INTEGER**: 4 bytes, little-endian
-    /// - **BIGINT**: 8 bytes, little-endian
-    /// - **VARCHAR**: 4-byte length prefix + UTF-8 bytes
-    /// - **BOOLEAN**: 1 byte (0 = false, 1 = true)
-    /// - **DECIMAL**: 8 bytes, little-endian (f64 representation)
-    /// - **NULL**: 1 byte marker (0xFF)
-    /// - **Other**: Debug string with length prefix (fallback)
-    fn serialize_tuple(&self, tuple: &Tuple) -> Vec<u8> {
-        let mut bytes = Vec::new();
-
-        for value in tuple.get_values() {
-            // Serialize each value to bytes for comparison
-            match value.get_val() {
-                Val::Integer(i) => bytes.extend_from_slice(&i.to_le_bytes()),
-                Val::BigInt(i) => bytes.extend_from_slice(&i.to_le_bytes()),
-                Val::VarLen(s) => {
-                    bytes.extend_from_slice(&(s.len() as u32).to_le_bytes());
-                    bytes.extend_from_slice(s.as_bytes());
-                },
-                Val::Boolean(b) => bytes.push(if *b { 1 } else { 0 }),
-                Val::Decimal(d) => bytes.extend_from_slice(&d.to_le_bytes()),
-                Val::Null => bytes.push(0xFF), // Special marker for NULL
-                _ => {
-                    // For other types, convert to string and serialize
-                    let s = format!("{:?}", value);
-                    bytes.extend_from_slice(&(s.len() as u32).to_le_bytes());
-                    bytes.extend_from_slice(s.as_bytes());
-                },
-            }
-        }
-
-        bytes
-    }
 }
 
 impl AbstractExecutor for DistinctExecutor {
@@ -239,13 +181,8 @@ impl AbstractExecutor for DistinctExecutor {
                 Some((tuple, rid)) => {
                     debug!("DistinctExecutor received tuple with RID {:?}", rid);
 
-                    // Serialize the tuple to bytes for comparison
-                    let tuple_bytes = self.serialize_tuple(&tuple);
-
                     // Check if we've seen this tuple before
-                    if !self.seen_tuples.contains(&tuple_bytes) {
-                        // Insert the tuple bytes into our set
-                        self.seen_tuples.insert(tuple_bytes);
+                    if self.seen_tuples.insert(tuple.get_values()) {
                         debug!("DistinctExecutor returning unique tuple with RID {:?}", rid);
                         return Ok(Some((tuple, rid)));
                     } else {
-- 
2.43.0


From 6e8b168fdf61dc568fa34b0abcc85d1ac4dce4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 37/56] fix: sort reports errors of its input and keys

---
 src/sql/execution/executors/sort_executor.rs | 124 +++++++++----------
 1 file changed, 61 insertions(+), 63 deletions(-)

diff --git a/src/sql/execution/executors/sort_executor.rs b/src/sql/execution/executors/sort_executor.rs
index e025abd..4d41acb 100644
--- a/src/sql/execution/executors/sort_executor.rs
+++ b/src/sql/execution/executors/sort_executor.rs
@@ -99,10 +99,11 @@
 //! ## NULL Handling
 //!
 //! NULL values are handled according to SQL semantics:
-//! - NULLs are compared using `partial_cmp`
-//! - Incomparable values (both NULL) are treated as equal
+//! - NULL sorts before every other value
+//! - Two NULLs are treated as equal
 //! - Sort continues to next key if current key comparison is inconclusive
 
+use std::cmp::Ordering;
 use std::sync::Arc;
 
 use log::{debug, error, trace};
@@ -117,6 +118,8 @@ use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::sort_plan::{OrderDirection, SortNode};
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::types::{CmpBool, Type};
+use crate::types_db::value::Value;
 
 /// Executor for sorting query results according to `ORDER BY` specifications.
 ///
@@ -192,6 +195,9 @@ pub struct SortExecutor {
 
     /// Flag indicating whether initialization (and sorting) is complete.
     initialized: bool,
+
+    /// Why the input could not be read or sorted; reported by every `next()`.
+    failed: Option<String>,
 }
 
 impl SortExecutor {
@@ -251,10 +257,20 @@ impl SortExecutor {
             sorted_tuples: Vec::new(),
             current_index: 0,
             initialized: false,
+            failed: None,
         }
     }
 }
 
+/// Orders two values of the same sort key: NULL first, then as their type does.
+fn compare_keys(a: &Value, b: &Value) -> Ordering {
+    match b.is_null().cmp(&a.is_null()) {
+        Ordering::Equal if a.compare_less_than(b) == CmpBool::CmpTrue => Ordering::Less,
+        Ordering::Equal if a.compare_greater_than(b) == CmpBool::CmpTrue => Ordering::Greater,
+        ordering => ordering,
+    }
+}
+
 impl AbstractExecutor for SortExecutor {
     /// Initializes the sort executor by collecting and sorting all input tuples.
     ///
@@ -272,8 +288,8 @@ impl AbstractExecutor for SortExecutor {
     /// ```text
     /// For each pair of tuples (A, B):
     ///   For each order-by spec in sequence:
-    ///     1. Evaluate expression on both tuples
-    ///     2. Compare values using partial_cmp
+    ///     1. Take the value of its expression for both tuples
+    ///     2. Compare the values, NULL first
     ///     3. If not equal:
     ///        - ASC: return natural ordering
     ///        - DESC: return reversed ordering
@@ -283,9 +299,8 @@ impl AbstractExecutor for SortExecutor {
     ///
     /// # Error Handling
     ///
-    /// - Child executor errors during collection are logged and terminate collection
-    /// - Expression evaluation errors are logged and that comparison key is skipped
-    /// - Incomparable values (e.g., NULLs) continue to the next sort key
+    /// `init()` cannot fail: a child executor error or an expression evaluation
+    /// error is kept, and reported by `next()`.
     ///
     /// # Idempotency
     ///
@@ -306,14 +321,26 @@ impl AbstractExecutor for SortExecutor {
 
             // Collect all tuples
             debug!("Starting to collect tuples from child executor");
-            let mut tuple_count = 0;
+            let order_by_specs = self.plan.get_order_bys();
+            let schema = self.plan.get_output_schema();
+            let mut keyed = Vec::new();
             loop {
                 match child.next() {
                     Ok(Some((tuple, rid))) => {
-                        self.sorted_tuples.push((tuple, rid));
-                        tuple_count += 1;
-                        if tuple_count % 100 == 0 {
-                            trace!("Collected {} tuples so far", tuple_count);
+                        let keys = order_by_specs
+                            .iter()
+                            .map(|spec| spec.get_expression().evaluate(&tuple, schema))
+                            .collect::<Result<Vec<Value>, _>>();
+                        match keys {
+                            Ok(keys) => keyed.push((keys, tuple, rid)),
+                            Err(e) => {
+                                error!("Error evaluating sort key: {}", e);
+                                self.failed = Some(e.to_string());
+                                break;
+                            },
+                        }
+                        if keyed.len() % 100 == 0 {
+                            trace!("Collected {} tuples so far", keyed.len());
                         }
                     },
                     Ok(None) => {
@@ -322,74 +349,41 @@ impl AbstractExecutor for SortExecutor {
                     },
                     Err(e) => {
                         error!("Error collecting tuples from child executor: {}", e);
+                        self.failed = Some(e.to_string());
                         break;
                     },
                 }
             }
-            debug!("Collected {} tuples for sorting", self.sorted_tuples.len());
-
-            // Get references to order by specifications and schema
-            let order_by_specs = self.plan.get_order_bys().clone();
-            let schema = self.plan.get_output_schema().clone();
 
             debug!(
                 "Starting to sort {} tuples with {} order by specifications",
-                self.sorted_tuples.len(),
+                keyed.len(),
                 order_by_specs.len()
             );
 
             // Sort tuples using the order by specifications with ASC/DESC support
-            self.sorted_tuples.sort_by(|(tuple_a, _), (tuple_b, _)| {
+            keyed.sort_by(|(keys_a, ..), (keys_b, ..)| {
                 // Compare each order by expression in sequence
-                for order_by_spec in &order_by_specs {
-                    let expression = order_by_spec.get_expression();
-                    let direction = order_by_spec.get_direction();
-
-                    // Evaluate expressions for both tuples
-                    let val_a_result = expression.evaluate(tuple_a, &schema);
-                    let val_b_result = expression.evaluate(tuple_b, &schema);
-
-                    // Handle evaluation results
-                    if let (Ok(val_a), Ok(val_b)) = (&val_a_result, &val_b_result) {
-                        // Compare values
-                        match val_a.partial_cmp(val_b) {
-                            Some(ordering) if !ordering.is_eq() => {
-                                // Apply direction: if DESC, reverse the ordering
-                                let final_ordering = match direction {
-                                    OrderDirection::Asc => ordering,
-                                    OrderDirection::Desc => ordering.reverse(),
-                                };
-                                trace!("Comparing values {:?} vs {:?}, order: {:?}, direction: {:?}, result: {:?}",
-                                       val_a, val_b, ordering, direction, final_ordering);
-                                return final_ordering;
-                            }
-                            None => {
-                                debug!("Cannot compare values: {:?} and {:?}", val_a, val_b);
-                                // Continue to next expression if values can't be compared
-                                continue;
-                            }
-                            _ => {
-                                // Values are equal, continue to next expression
-                                continue;
-                            }
-                        }
-                    } else {
-                        // Handle evaluation errors
-                        if let Err(e) = &val_a_result {
-                            error!("Error evaluating left expression: {}", e);
-                        }
-                        if let Err(e) = &val_b_result {
-                            error!("Error evaluating right expression: {}", e);
-                        }
-                        // Continue to next expression if there was an error
-                        continue;
+                for ((spec, a), b) in order_by_specs.iter().zip(keys_a).zip(keys_b) {
+                    let ordering = compare_keys(a, b);
+                    if ordering.is_ne() {
+                        // Apply direction: if DESC, reverse the ordering
+                        return match spec.get_direction() {
+                            OrderDirection::Asc => ordering,
+                            OrderDirection::Desc => ordering.reverse(),
+                        };
                     }
                 }
 
-                // If all expressions are equal or had errors, return equal
-                std::cmp::Ordering::Equal
+                // If all expressions are equal, return equal
+                Ordering::Equal
             });
 
+            self.sorted_tuples = keyed
+                .into_iter()
+                .map(|(_, tuple, rid)| (tuple, rid))
+                .collect();
+
             debug!("Sorting completed");
         }
 
@@ -435,6 +429,10 @@ impl AbstractExecutor for SortExecutor {
             self.init();
         }
 
+        if let Some(e) = &self.failed {
+            return Err(DBError::Execution(e.clone()));
+        }
+
         if self.current_index >= self.sorted_tuples.len() {
             debug!("No more tuples to return");
             return Ok(None);
-- 
2.43.0


From 0a43b9c887b4127233fe403ebcb3da65eec96f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 38/56] fix: index scan bounds come only from comparisons of
 the key column

---
 .../executors/index_scan_executor.rs          | 377 ++++++------------
 1 file changed, 122 insertions(+), 255 deletions(-)

diff --git a/src/sql/execution/executors/index_scan_executor.rs b/src/sql/execution/executors/index_scan_executor.rs
index c510415..bc020c8 100644
--- a/src/sql/execution/executors/index_scan_executor.rs
+++ b/src/sql/execution/executors/index_scan_executor.rs
@@ -73,6 +73,8 @@ use crate::storage::index::IndexInfo;
 use crate::storage::index::index_iterator_mem::IndexIterator;
 use crate::storage::table::transactional_table_heap::TransactionalTableHeap;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::type_id::TypeId;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::{Val, Value};
 
 /// Executor for index-based table scans.
@@ -196,275 +198,147 @@ impl IndexScanExecutor {
         }
     }
 
-    /// Analyzes a predicate expression to extract index scan ranges.
+    /// Analyzes a predicate to find the index keys for which it can hold.
     ///
-    /// Recursively processes comparison and logic expressions to determine
-    /// the optimal start and end bounds for an index scan.
+    /// The range may be wider than the predicate, which `next()` checks again
+    /// for every tuple; it must never leave out a key for which it holds.
     ///
-    /// # Arguments
-    ///
-    /// * `expr` - The predicate expression to analyze.
-    ///
-    /// # Returns
-    ///
-    /// A vector of ranges, where each range is a tuple of:
-    /// - `Option<Value>`: Start bound (None = unbounded)
-    /// - `bool`: Start bound inclusive
-    /// - `Option<Value>`: End bound (None = unbounded)
-    /// - `bool`: End bound inclusive
-    ///
-    /// # Logic Expression Handling
-    ///
-    /// - **AND**: Intersects ranges (takes most restrictive bounds)
-    /// - **OR**: Unions ranges (returns all child ranges)
-    /// - **NOT**: Inverts comparison operators
-    fn analyze_predicate_ranges(
-        expr: &Expression,
-    ) -> Vec<(Option<Value>, bool, Option<Value>, bool)> {
+    /// - A comparison of the key column with a constant of its type bounds it
+    /// - **AND**: intersects the ranges of its operands
+    /// - **OR**: takes the smallest range that contains those of its operands
+    /// - Everything else does not bound the key
+    fn analyze_predicate_range(expr: &Expression, key_column: usize, key_type: TypeId) -> KeyRange {
         match expr {
             Expression::Logic(logic_expr) => {
-                let mut ranges = Vec::new();
-
+                let operands = logic_expr
+                    .get_children()
+                    .iter()
+                    .map(|child| Self::analyze_predicate_range(child, key_column, key_type));
                 match logic_expr.get_logic_type() {
-                    LogicType::And => {
-                        // For AND, find the most restrictive range
-                        let mut start_value = None;
-                        let mut end_value = None;
-                        let mut include_start = false;
-                        let mut include_end = false;
-
-                        // Process each child of AND
-                        for child in logic_expr.get_children() {
-                            let child_ranges = Self::analyze_predicate_ranges(child);
-                            for (child_start, child_start_incl, child_end, child_end_incl) in
-                                child_ranges
-                            {
-                                // Update start bound if more restrictive
-                                if let Some(value) = child_start {
-                                    match &start_value {
-                                        None => {
-                                            start_value = Some(value);
-                                            include_start = child_start_incl;
-                                        },
-                                        Some(current) if value > *current => {
-                                            start_value = Some(value);
-                                            include_start = child_start_incl;
-                                        },
-                                        _ => {},
-                                    }
-                                }
-
-                                // Update end bound if more restrictive
-                                if let Some(value) = child_end {
-                                    match &end_value {
-                                        None => {
-                                            end_value = Some(value);
-                                            include_end = child_end_incl;
-                                        },
-                                        Some(current) if value < *current => {
-                                            end_value = Some(value);
-                                            include_end = child_end_incl;
-                                        },
-                                        _ => {},
-                                    }
-                                }
-                            }
-                        }
-                        ranges.push((start_value, include_start, end_value, include_end));
-                    },
-                    LogicType::Or => {
-                        // For OR, collect all ranges and union them
-                        for child in logic_expr.get_children() {
-                            ranges.extend(Self::analyze_predicate_ranges(child));
-                        }
-                    },
-                    LogicType::Not => {
-                        // For NOT operations on comparisons, we need to invert the bounds
-                        if let Some(child) = logic_expr.get_children().first() {
-                            match child.as_ref() {
-                                Expression::Comparison(comp_expr) => {
-                                    if let Ok(value) = comp_expr.get_right().evaluate(
-                                        &Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0)),
-                                        &Schema::new(vec![]),
-                                    ) {
-                                        match comp_expr.get_comp_type() {
-                                            ComparisonType::Equal => {
-                                                // NOT (x = value) -> x < value OR x > value
-                                                // This requires full scan as it creates a disjoint range
-                                                Vec::new()
-                                            },
-                                            ComparisonType::GreaterThan => {
-                                                // NOT (x > value) -> x <= value
-                                                vec![(None, false, Some(value), true)]
-                                            },
-                                            ComparisonType::GreaterThanOrEqual => {
-                                                // NOT (x >= value) -> x < value
-                                                vec![(None, false, Some(value), false)]
-                                            },
-                                            ComparisonType::LessThan => {
-                                                // NOT (x < value) -> x >= value
-                                                vec![(Some(value), true, None, false)]
-                                            },
-                                            ComparisonType::LessThanOrEqual => {
-                                                // NOT (x <= value) -> x > value
-                                                vec![(Some(value), false, None, false)]
-                                            },
-                                            ComparisonType::NotEqual => {
-                                                // NOT (x != value) -> x = value
-                                                vec![(Some(value.clone()), true, Some(value), true)]
-                                            },
-                                            ComparisonType::IsNotNull => {
-                                                // NOT (IS NOT NULL) -> IS NULL
-                                                // This requires special handling at runtime
-                                                Vec::new()
-                                            },
-                                        }
-                                    } else {
-                                        Vec::new()
-                                    }
-                                },
-                                _ => Vec::new(), // NOT on non-comparison expressions
-                            }
-                        } else {
-                            Vec::new()
-                        };
-                    },
+                    LogicType::And => operands.fold(KeyRange::default(), KeyRange::intersect),
+                    LogicType::Or => operands.reduce(KeyRange::cover).unwrap_or_default(),
+                    LogicType::Not => KeyRange::default(),
                 }
-                ranges
             },
             Expression::Comparison(comp_expr) => {
-                if let Ok(value) = comp_expr.get_right().evaluate(
-                    &Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0)),
-                    &Schema::new(vec![]),
+                let value = match (
+                    comp_expr.get_left().as_ref(),
+                    comp_expr.get_right().as_ref(),
                 ) {
-                    match comp_expr.get_comp_type() {
-                        ComparisonType::Equal => {
-                            // For equality, use same value for both bounds, inclusive
-                            vec![(Some(value.clone()), true, Some(value), true)]
-                        },
-                        ComparisonType::GreaterThan => {
-                            // x > value
-                            vec![(Some(value), false, None, false)]
-                        },
-                        ComparisonType::GreaterThanOrEqual => {
-                            // x >= value
-                            vec![(Some(value), true, None, false)]
-                        },
-                        ComparisonType::LessThan => {
-                            // x < value
-                            vec![(None, false, Some(value), false)]
-                        },
-                        ComparisonType::LessThanOrEqual => {
-                            // x <= value
-                            vec![(None, false, Some(value), true)]
-                        },
-                        ComparisonType::NotEqual => {
-                            // Full scan for not equal
-                            Vec::new()
-                        },
-                        ComparisonType::IsNotNull => {
-                            // For IS NOT NULL, scan all non-null values
-                            // This effectively means no bounds, as we'll filter nulls later
-                            Vec::new()
-                        },
-                    }
-                } else {
-                    Vec::new()
+                    (Expression::ColumnRef(column), Expression::Constant(constant))
+                        if column.get_column_index() == key_column
+                            && constant.get_value().get_type_id() == key_type
+                            && !constant.get_value().is_null() =>
+                    {
+                        constant.get_value().clone()
+                    },
+                    _ => return KeyRange::default(),
+                };
+                match comp_expr.get_comp_type() {
+                    ComparisonType::Equal => KeyRange {
+                        start: Some(value.clone()),
+                        end: Some(value),
+                    },
+                    ComparisonType::GreaterThan | ComparisonType::GreaterThanOrEqual => KeyRange {
+                        start: Some(value),
+                        end: None,
+                    },
+                    ComparisonType::LessThan | ComparisonType::LessThanOrEqual => KeyRange {
+                        start: None,
+                        end: Some(value),
+                    },
+                    ComparisonType::NotEqual | ComparisonType::IsNotNull => KeyRange::default(),
                 }
             },
-            _ => Vec::new(),
+            _ => KeyRange::default(),
         }
     }
 
-    /// Computes the final index scan bounds from all predicates.
-    ///
-    /// Analyzes all predicate keys, collects their ranges, and computes
-    /// the widest range that covers all predicates (for OR semantics)
-    /// or the narrowest range (for AND semantics within each predicate).
-    ///
-    /// # Arguments
-    ///
-    /// * `index_info` - Index metadata containing the key schema.
+    /// Computes the bounds of the index scan from all predicates, which must
+    /// all hold.
     ///
     /// # Returns
     ///
-    /// A tuple of:
-    /// - `Option<Arc<Tuple>>`: Start key tuple (None = scan from beginning)
-    /// - `Option<Arc<Tuple>>`: End key tuple (None = scan to end)
-    ///
-    /// # Algorithm
-    ///
-    /// 1. Collect ranges from all predicate expressions
-    /// 2. Take the minimum start value (widest coverage)
-    /// 3. Take the maximum end value (widest coverage)
-    /// 4. Create key tuples using the index's key schema
+    /// The first and the last key to read, as tuples of the table from which
+    /// the index extracts its key, or `(None, None)` for the whole index: the
+    /// index iterator reads either all of it or what lies between two keys.
     fn analyze_bounds(&self, index_info: &IndexInfo) -> (Option<Arc<Tuple>>, Option<Arc<Tuple>>) {
-        let predicate_keys = self.plan.get_predicate_keys();
-        let mut all_ranges = Vec::new();
-
-        for pred in predicate_keys {
-            all_ranges.extend(Self::analyze_predicate_ranges(pred.as_ref()));
-        }
+        let schema = self.plan.get_output_schema();
+        let key_column = match index_info.get_key_attrs().as_slice() {
+            [key_column] => *key_column,
+            _ => return (None, None),
+        };
+        let key_type = match schema.get_column(key_column) {
+            Some(column) => column.get_type(),
+            None => return (None, None),
+        };
 
-        // If we have no ranges to analyze, return None for full scan
-        if all_ranges.is_empty() {
-            return (None, None);
+        let range = self
+            .plan
+            .get_predicate_keys()
+            .iter()
+            .map(|predicate| Self::analyze_predicate_range(predicate, key_column, key_type))
+            .fold(KeyRange::default(), KeyRange::intersect);
+        debug!("Scan bounds: {:?}", range);
+
+        let key_tuple = |key: Value| {
+            let mut values: Vec<Value> = schema
+                .get_columns()
+                .iter()
+                .map(|column| Value::new_with_type(Val::Null, column.get_type()))
+                .collect();
+            values[key_column] = key;
+            Arc::new(Tuple::new(&values, schema, RID::new(0, 0)))
+        };
+        match (range.start, range.end) {
+            (Some(start), Some(end)) => (Some(key_tuple(start)), Some(key_tuple(end))),
+            _ => (None, None),
         }
+    }
+}
 
-        // Find the widest range that covers all predicates
-        let mut final_start = None;
-        let mut final_end = None;
-        let mut final_start_incl = false;
-        let mut final_end_incl = false;
-
-        for (start, start_incl, end, end_incl) in all_ranges {
-            // Take minimum start value
-            match (&final_start, start) {
-                (None, Some(value)) => {
-                    final_start = Some(value);
-                    final_start_incl = start_incl;
-                },
-                (Some(current), Some(value)) if value < *current => {
-                    final_start = Some(value);
-                    final_start_incl = start_incl;
-                },
-                _ => {},
-            }
+/// The index keys from `start` to `end`, both included; a missing bound does
+/// not restrict them.
+#[derive(Debug, Default)]
+struct KeyRange {
+    start: Option<Value>,
+    end: Option<Value>,
+}
 
-            // Take maximum end value
-            match (&final_end, end) {
-                (None, Some(value)) => {
-                    final_end = Some(value);
-                    final_end_incl = end_incl;
-                },
-                (Some(current), Some(value)) if value > *current => {
-                    final_end = Some(value);
-                    final_end_incl = end_incl;
-                },
-                _ => {},
-            }
+impl KeyRange {
+    /// The keys in both ranges.
+    fn intersect(self, other: KeyRange) -> KeyRange {
+        KeyRange {
+            start: match (self.start, other.start) {
+                (Some(a), Some(b)) => Some(if less_than(&a, &b) { b } else { a }),
+                (a, b) => a.or(b),
+            },
+            end: match (self.end, other.end) {
+                (Some(a), Some(b)) => Some(if less_than(&b, &a) { b } else { a }),
+                (a, b) => a.or(b),
+            },
         }
+    }
 
-        // Create tuples using the index's key schema
-        let key_schema = index_info.get_key_schema().clone();
-
-        let start_tuple = final_start
-            .clone()
-            .map(|v| Arc::new(Tuple::new(&[v], &key_schema, RID::new(0, 0))));
-
-        let end_tuple = final_end
-            .clone()
-            .map(|v| Arc::new(Tuple::new(&[v], &key_schema, RID::new(0, 0))));
-
-        debug!(
-            "Scan bounds: start={:?} (incl={}), end={:?} (incl={})",
-            final_start, final_start_incl, final_end, final_end_incl
-        );
-
-        (start_tuple, end_tuple)
+    /// The smallest range that contains both ranges.
+    fn cover(self, other: KeyRange) -> KeyRange {
+        KeyRange {
+            start: match (self.start, other.start) {
+                (Some(a), Some(b)) => Some(if less_than(&b, &a) { b } else { a }),
+                _ => None,
+            },
+            end: match (self.end, other.end) {
+                (Some(a), Some(b)) => Some(if less_than(&a, &b) { b } else { a }),
+                _ => None,
+            },
+        }
     }
 }
 
+fn less_than(a: &Value, b: &Value) -> bool {
+    a.compare_less_than(b) == CmpBool::CmpTrue
+}
+
 impl AbstractExecutor for IndexScanExecutor {
     /// Initializes the index scan executor.
     ///
@@ -574,19 +448,12 @@ impl AbstractExecutor for IndexScanExecutor {
                     // Additional check against predicates
                     let mut predicates_match = true;
                     for predicate in predicate_keys {
-                        if let Ok(result) = predicate.evaluate(&tuple, &output_schema) {
-                            match result.get_val() {
-                                Val::Boolean(b) => {
-                                    if !b {
-                                        predicates_match = false;
-                                        break;
-                                    }
-                                },
-                                _ => {
-                                    predicates_match = false;
-                                    break;
-                                },
-                            }
+                        let result = predicate
+                            .evaluate(&tuple, &output_schema)
+                            .map_err(|e| DBError::Execution(e.to_string()))?;
+                        if !matches!(result.get_val(), Val::Boolean(true)) {
+                            predicates_match = false;
+                            break;
                         }
                     }
 
-- 
2.43.0


From da2dc85148cf5ac26c1a18226b76b8b07ede56bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 39/56] fix: nested index join reports errors, checks its
 index, and supports LEFT JOIN

---
 .../executors/nested_index_join_executor.rs   | 407 +++++++-----------
 1 file changed, 165 insertions(+), 242 deletions(-)

diff --git a/src/sql/execution/executors/nested_index_join_executor.rs b/src/sql/execution/executors/nested_index_join_executor.rs
index 2333381..93915be 100644
--- a/src/sql/execution/executors/nested_index_join_executor.rs
+++ b/src/sql/execution/executors/nested_index_join_executor.rs
@@ -85,6 +85,7 @@ use std::sync::Arc;
 
 use log::{debug, trace};
 use parking_lot::RwLock;
+use sqlparser::ast::JoinOperator;
 
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
@@ -104,8 +105,7 @@ use crate::sql::execution::plans::index_scan_plan::IndexScanNode;
 use crate::sql::execution::plans::nested_index_join_plan::NestedIndexJoinNode;
 use crate::sql::execution::plans::seq_scan_plan::SeqScanPlanNode;
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::type_id::TypeId;
-use crate::types_db::value::Val;
+use crate::types_db::value::{Val, Value};
 
 /// Executor for index-optimized nested loop joins.
 ///
@@ -123,11 +123,12 @@ use crate::types_db::value::Val;
 /// * `right_exhausted` - Whether all matches for current left tuple have been found
 /// * `current_right_executor` - Index or sequential scan executor for right relation
 /// * `processed_right_rids` - RIDs already processed for current left tuple
+/// * `left_matched` - Whether the current left tuple has joined a right tuple
 ///
 /// # Join Types
 ///
-/// Currently supports `INNER JOIN` only. Outer join support would require
-/// additional logic to emit unmatched tuples.
+/// Supports `INNER JOIN` and `LEFT JOIN`. The other join types would require
+/// every tuple of the inner relation, and are reported as unsupported.
 ///
 /// # Example
 ///
@@ -159,6 +160,7 @@ pub struct NestedIndexJoinExecutor {
     right_exhausted: bool, // Whether we've exhausted the inner (right) relation for current left tuple
     current_right_executor: Option<Box<dyn AbstractExecutor>>, // Track current right relation executor (either index scan or seq scan)
     processed_right_rids: Vec<RID>, // Keep track of right RIDs we've already processed for current left tuple
+    left_matched: bool,             // Whether the current left tuple has joined a right tuple
 }
 
 impl NestedIndexJoinExecutor {
@@ -193,6 +195,7 @@ impl NestedIndexJoinExecutor {
             right_exhausted: false,
             current_right_executor: None,
             processed_right_rids: Vec::new(),
+            left_matched: false,
         }
     }
 
@@ -205,13 +208,14 @@ impl NestedIndexJoinExecutor {
     ///
     /// # Returns
     ///
-    /// `true` if the tuples satisfy the join predicate, `false` otherwise.
+    /// `true` if the tuples satisfy the join predicate, `false` otherwise, or
+    /// the error of its evaluation.
     ///
     /// # Predicate Evaluation
     ///
     /// Uses `evaluate_join` which handles column references from both
     /// relations using tuple indices (0 for left, 1 for right).
-    fn evaluate_predicate(&self, left_tuple: &Tuple, right_tuple: &Tuple) -> bool {
+    fn evaluate_predicate(&self, left_tuple: &Tuple, right_tuple: &Tuple) -> Result<bool, DBError> {
         let predicate = self.plan.get_predicate();
         let left_schema = self.plan.get_left_schema();
         let right_schema = self.plan.get_right_schema();
@@ -225,22 +229,11 @@ impl NestedIndexJoinExecutor {
         trace!("Right schema: {:?}", right_schema);
         trace!("Predicate: {:?}", predicate);
 
-        match predicate.evaluate_join(left_tuple, left_schema, right_tuple, right_schema) {
-            Ok(v) => match v.get_val() {
-                Val::Boolean(b) => {
-                    trace!("Predicate evaluation returned boolean: {}", b);
-                    *b
-                },
-                other => {
-                    trace!("Predicate evaluation returned non-boolean: {:?}", other);
-                    false
-                },
-            },
-            Err(e) => {
-                trace!("Predicate evaluation error: {:?}", e);
-                false
-            },
-        }
+        let value = predicate
+            .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            .map_err(|e| DBError::Execution(e.to_string()))?;
+        trace!("Predicate evaluation returned: {:?}", value);
+        Ok(matches!(value.get_val(), Val::Boolean(true)))
     }
 
     /// Constructs the output tuple by concatenating left and right tuple values.
@@ -248,7 +241,7 @@ impl NestedIndexJoinExecutor {
     /// # Arguments
     ///
     /// * `left_tuple` - Tuple from the outer (left) relation
-    /// * `right_tuple` - Tuple from the inner (right) relation
+    /// * `right_values` - Values of the tuple from the inner (right) relation
     ///
     /// # Returns
     ///
@@ -259,9 +252,9 @@ impl NestedIndexJoinExecutor {
     ///
     /// The output tuple uses a placeholder RID `(0, 0)` since joined tuples
     /// don't have a single physical location.
-    fn construct_output_tuple(&self, left_tuple: &Tuple, right_tuple: &Tuple) -> Arc<Tuple> {
+    fn construct_output_tuple(&self, left_tuple: &Tuple, right_values: Vec<Value>) -> Arc<Tuple> {
         let mut joined_values = left_tuple.get_values().clone();
-        joined_values.extend(right_tuple.get_values().clone());
+        joined_values.extend(right_values);
 
         // Create tuple with combined values and a placeholder RID
         Arc::new(Tuple::new(
@@ -271,206 +264,146 @@ impl NestedIndexJoinExecutor {
         ))
     }
 
-    /// Retrieves the next tuple from the inner (right) relation.
-    ///
-    /// Uses the current right executor (index scan or sequential scan) to
-    /// find the next matching tuple. Automatically skips tuples that have
-    /// already been processed for the current left tuple.
+    /// Retrieves the next tuple from the inner (right) relation for the current
+    /// left tuple, each one once.
     ///
     /// # Returns
     ///
-    /// * `Ok(Some((tuple, rid)))` - Next unprocessed matching tuple
-    /// * `Ok(None)` - No more matching tuples for current left tuple
-    /// * `Err(DBError)` - Failed to create right executor
-    ///
-    /// # Deduplication
-    ///
-    /// Maintains a list of processed RIDs to prevent duplicate results
-    /// when the same right tuple matches multiple times.
-    ///
-    /// # Executor Creation
-    ///
-    /// If no current right executor exists, creates one via
-    /// `create_right_executor()` before attempting to fetch tuples.
+    /// * `Ok(Some((tuple, rid)))` - Next right tuple
+    /// * `Ok(None)` - No more right tuples for the current left tuple
+    /// * `Err(DBError)` - The right executor cannot be created, or has failed
     fn get_next_inner_tuple(&mut self) -> Result<Option<(Arc<Tuple>, RID)>, DBError> {
-        // Updated to handle Result type from child executors
-        // If we have a current right executor, try to get next tuple from it
+        if self.current_right_executor.is_none() {
+            self.current_right_executor = Some(self.create_right_executor()?);
+        }
+
         if let Some(executor) = &mut self.current_right_executor {
-            while let Ok(Some(tuple_and_rid)) = executor.next() {
-                let right_rid = tuple_and_rid.1;
-                // Skip if we've already processed this right tuple for the current left tuple
+            while let Some((tuple, right_rid)) = executor.next()? {
                 if self.processed_right_rids.contains(&right_rid) {
                     debug!("Skipping already processed RID: {:?}", right_rid);
-                    continue; // Skip to next tuple
+                    continue;
                 }
-
-                // Add the RID to processed list
-                debug!("Adding RID to processed list: {:?}", right_rid);
                 self.processed_right_rids.push(right_rid);
-
-                return Ok(Some(tuple_and_rid));
+                return Ok(Some((tuple, right_rid)));
             }
-            // If we get here, exhausted the executor
-            self.current_right_executor = None;
-            return Ok(None);
-        }
-
-        // Create executor for the current left tuple
-        if self.create_right_executor().is_none() {
-            return Err(DBError::Execution(
-                "Failed to create right executor".to_string(),
-            ));
         }
 
-        // Now try to get the first result with the newly created executor
-        if let Some(executor) = &mut self.current_right_executor
-            && let Ok(Some(tuple_and_rid)) = executor.next()
-        {
-            let right_rid = tuple_and_rid.1;
-
-            // Check if we've already processed this RID
-            if self.processed_right_rids.contains(&right_rid) {
-                debug!(
-                    "Skipping already processed RID (first result): {:?}",
-                    right_rid
-                );
-                return self.get_next_inner_tuple(); // Recursively try next
-            }
-
-            // Add to processed list
-            debug!(
-                "Adding RID to processed list (first result): {:?}",
-                right_rid
-            );
-            self.processed_right_rids.push(right_rid);
-
-            return Ok(Some(tuple_and_rid));
-        }
-
-        // No results found
         Ok(None)
     }
 
-    /// Creates an executor for the inner (right) relation based on current left tuple.
-    ///
-    /// Dynamically creates either an index scan or sequential scan executor
-    /// for the right relation, parameterized by the current left tuple's
-    /// join key values.
-    ///
-    /// # Algorithm
-    ///
-    /// 1. Extract key values from current left tuple
-    /// 2. Build comparison predicates for index lookup
-    /// 3. Search catalog for suitable index on right table
-    /// 4. If index found: create `IndexScanExecutor`
-    /// 5. If no index: fall back to `SeqScanExecutor`
-    ///
-    /// # Returns
-    ///
-    /// * `Some(())` - Executor created successfully
-    /// * `None` - Failed to create executor (no current left tuple or error)
+    /// Creates the executor that reads the right tuples which may join the
+    /// current left tuple.
     ///
-    /// # Index Selection
-    ///
-    /// Selects an index whose key schema matches the number of join key
-    /// expressions. For composite keys, all key columns must be covered.
-    ///
-    /// # Fallback Behavior
-    ///
-    /// When no suitable index exists, creates a sequential scan with
-    /// predicate pushdown for the join condition. This is less efficient
-    /// but ensures correctness.
-    fn create_right_executor(&mut self) -> Option<()> {
-        // Get the current left tuple
-        let (left_tuple, _) = self.current_left_tuple.as_ref()?;
-
-        // Create new index scan for the current left tuple
+    /// An index on the column of a right join key is scanned for the value of
+    /// the matching left key; without one the whole table is scanned. Either
+    /// way the join predicate decides.
+    fn create_right_executor(&self) -> Result<Box<dyn AbstractExecutor>, DBError> {
+        let (left_tuple, _) = self
+            .current_left_tuple
+            .as_ref()
+            .ok_or_else(|| DBError::Execution("No current left tuple".to_string()))?;
+
+        // Get schemas and key expressions
         let right_schema = self.plan.get_right_schema().clone();
         let right_key_exprs = self.plan.get_right_key_expressions();
         let left_key_exprs = self.plan.get_left_key_expressions();
 
-        // Evaluate left key expressions to get values for index lookup
-        let mut predicate_keys = Vec::new();
-        for (left_expr, right_expr) in left_key_exprs.iter().zip(right_key_exprs.iter()) {
-            if let Ok(value) = left_expr.evaluate(left_tuple, self.plan.get_left_schema()) {
-                debug!("Evaluated left key expression to: {:?}", value);
-
-                // Create comparison expression for index scan
-                let predicate = Arc::new(Expression::Comparison(ComparisonExpression::new(
-                    right_expr.clone(),
-                    Arc::new(Expression::Constant(ConstantExpression::new(
-                        value.clone(),
-                        Column::new("const", TypeId::Integer),
-                        vec![],
-                    ))),
-                    ComparisonType::Equal,
-                    vec![],
+        // The right child's own predicates, and the index it names
+        let (table_name, mut predicate_keys, mut index) = match self.plan.get_right_child() {
+            PlanNode::SeqScan(scan) => (scan.get_table_name(), Vec::new(), None),
+            PlanNode::TableScan(scan) => (scan.get_table_name(), Vec::new(), None),
+            PlanNode::IndexScan(scan) => (
+                scan.get_table_name(),
+                scan.get_predicate_keys().clone(),
+                Some((scan.get_index_name(), scan.get_index_id())),
+            ),
+            other => {
+                return Err(DBError::Execution(format!(
+                    "Nested index join cannot use {} as its inner relation",
+                    other
                 )));
-                predicate_keys.push(predicate);
-            } else {
-                debug!("Failed to evaluate left key expression");
-            }
-        }
+            },
+        };
 
-        // Get catalog info for right table
-        let binding = self.context.read();
-        let catalog = binding.get_catalog();
+        let catalog = self.context.read().get_catalog().clone();
         let catalog_guard = catalog.read();
 
-        // Extract table name from right child plan node
-        let table_name = match self.plan.get_right_child() {
-            PlanNode::SeqScan(scan) => scan.get_table_name(),
-            PlanNode::IndexScan(scan) => scan.get_table_name(),
-            // Add other cases as needed
-            _ => return None, // Return None if we can't get table name
-        };
+        let table_oid = catalog_guard
+            .get_table(table_name)
+            .ok_or_else(|| DBError::TableNotFound(table_name.to_string()))?
+            .get_table_oidt();
+
+        if index.is_none() {
+            index = catalog_guard
+                .get_table_indexes(table_name)
+                .iter()
+                .find(|idx| {
+                    right_key_exprs.iter().any(|key| match key.as_ref() {
+                        Expression::ColumnRef(column) => {
+                            idx.get_key_attrs().as_slice() == [column.get_column_index()]
+                        },
+                        _ => false,
+                    })
+                })
+                .map(|idx| (idx.get_index_name().to_string(), idx.get_index_oid()));
+        }
 
-        let table_info = catalog_guard.get_table(table_name).unwrap();
-        let table_indexes = catalog_guard.get_table_indexes(table_name);
-
-        // Find suitable index
-        let index_info = match table_indexes.iter().find(|idx| {
-            let key_schema = idx.get_key_schema();
-            key_schema.get_column_count() as usize == right_key_exprs.len()
-        }) {
-            Some(idx) => idx,
-            None => {
-                // No suitable index found - create a sequential scan instead
-                debug!("No suitable index found, falling back to sequential scan");
-                let seq_scan_plan = Arc::new(SeqScanPlanNode::new(
-                    right_schema.clone(),
-                    table_info.get_table_oidt(),
-                    table_name.to_string(),
-                ));
-
-                let mut seq_scan_executor =
-                    SeqScanExecutor::new(self.context.clone(), seq_scan_plan);
-                seq_scan_executor.init();
-
-                // Store the executor for retrieving right tuples
-                self.current_right_executor = Some(Box::new(seq_scan_executor));
-                return Some(());
-            },
+        drop(catalog_guard);
+
+        let Some((index_name, index_oid)) = index else {
+            debug!("No suitable index found, falling back to sequential scan");
+            let seq_scan_plan = Arc::new(SeqScanPlanNode::new(
+                right_schema,
+                table_oid,
+                table_name.to_string(),
+            ));
+            let mut seq_scan_executor = SeqScanExecutor::new(self.context.clone(), seq_scan_plan);
+            seq_scan_executor.init();
+            return Ok(Box::new(seq_scan_executor));
         };
 
-        // Create and execute index scan
+        // Create equality predicates for the index scan
+        for (left_expr, right_expr) in left_key_exprs.iter().zip(right_key_exprs.iter()) {
+            let value = left_expr
+                .evaluate(left_tuple, self.plan.get_left_schema())
+                .map_err(|e| DBError::Execution(e.to_string()))?;
+            let constant = Column::new("const", value.get_type_id());
+
+            predicate_keys.push(Arc::new(Expression::Comparison(ComparisonExpression::new(
+                right_expr.clone(),
+                Arc::new(Expression::Constant(ConstantExpression::new(
+                    value,
+                    constant,
+                    vec![],
+                ))),
+                ComparisonType::Equal,
+                vec![],
+            ))));
+        }
+
         let index_scan_plan = Arc::new(IndexScanNode::new(
             right_schema,
             table_name.to_string(),
-            table_info.get_table_oidt(),
-            index_info.get_index_name().to_string(),
-            index_info.get_index_oid(),
+            table_oid,
+            index_name,
+            index_oid,
             predicate_keys,
         ));
-
-        // Create new executor
         let mut index_scan_executor = IndexScanExecutor::new(self.context.clone(), index_scan_plan);
-
         index_scan_executor.init();
+        Ok(Box::new(index_scan_executor))
+    }
 
-        // Store for future use
-        self.current_right_executor = Some(Box::new(index_scan_executor));
-        Some(())
+    /// Whether unmatched left tuples are part of the result.
+    fn is_left_join(&self) -> Result<bool, DBError> {
+        match self.plan.get_join_type() {
+            JoinOperator::Join(_) | JoinOperator::Inner(_) => Ok(false),
+            JoinOperator::Left(_) | JoinOperator::LeftOuter(_) => Ok(true),
+            other => Err(DBError::Execution(format!(
+                "Nested index join does not support join type {:?}",
+                other
+            ))),
+        }
     }
 }
 
@@ -557,73 +490,63 @@ impl AbstractExecutor for NestedIndexJoinExecutor {
     /// - Creates a new right executor for index lookup
     fn next(&mut self) -> Result<Option<(Arc<Tuple>, RID)>, DBError> {
         if !self.initialized {
-            debug!("NestedIndexJoinExecutor not initialized");
-            return Ok(None);
+            debug!("NestedIndexJoinExecutor not initialized, initializing now");
+            self.init();
         }
-
-        debug!("NestedIndexJoinExecutor::next() called");
+        let left_join = self.is_left_join()?;
 
         loop {
-            // If we have a current left tuple and haven't exhausted right relation
-            if !self.right_exhausted {
-                if let Some((left_tuple, left_rid)) = &self.current_left_tuple {
-                    debug!(
-                        "Processing current left tuple: {:?}",
-                        left_tuple.get_values()
-                    );
-                    let left_tuple_clone = left_tuple.clone();
-                    let left_rid_clone = *left_rid;
-
-                    // Try to get next matching tuple from right relation using index
-                    debug!("Attempting to get next inner tuple");
-                    if let Ok(Some((right_tuple, _))) = self.get_next_inner_tuple() {
-                        debug!("Got right tuple: {:?}", right_tuple.get_values());
-
-                        // Double-check the predicate since get_next_inner_tuple already filters by key equality
-                        if self.evaluate_predicate(&left_tuple_clone, &right_tuple) {
-                            debug!("Predicate evaluation successful, constructing join result");
-                            let result =
-                                self.construct_output_tuple(&left_tuple_clone, &right_tuple);
-                            debug!("Constructed tuple: {:?}", result.get_values());
-                            return Ok(Some((result, left_rid_clone)));
-                        } else {
-                            debug!("Predicate evaluation failed, continuing to next right tuple");
+            // Join the current left tuple with the rest of its right tuples
+            while !self.right_exhausted
+                && let Some((left_tuple, left_rid)) = self.current_left_tuple.clone()
+            {
+                match self.get_next_inner_tuple()? {
+                    Some((right_tuple, _)) => {
+                        if self.evaluate_predicate(&left_tuple, &right_tuple)? {
+                            self.left_matched = true;
+                            let right_values = right_tuple.get_values();
+                            let result = self.construct_output_tuple(&left_tuple, right_values);
+                            return Ok(Some((result, left_rid)));
                         }
-                        continue;
-                    } else {
-                        // No more matching tuples for this left tuple
+                    },
+                    None => {
                         debug!("No more right tuples for current left tuple");
                         self.right_exhausted = true;
                         self.current_right_executor = None;
-                    }
-                } else {
-                    debug!("No current left tuple set");
+                        if left_join && !self.left_matched {
+                            let nulls = self
+                                .plan
+                                .get_right_schema()
+                                .get_columns()
+                                .iter()
+                                .map(|column| Value::new_with_type(Val::Null, column.get_type()))
+                                .collect();
+                            let result = self.construct_output_tuple(&left_tuple, nulls);
+                            return Ok(Some((result, left_rid)));
+                        }
+                    },
                 }
             }
 
-            // Get next tuple from left relation
             debug!("Attempting to get next left tuple");
-            if let Some(children) = &mut self.children_executors {
-                if let Some(left_tuple) = children[0].next()? {
-                    debug!(
-                        "Got new left tuple: {:?}, clearing processed RIDs list",
-                        left_tuple.0.get_values()
-                    );
+            let left_executor = self
+                .children_executors
+                .as_mut()
+                .and_then(|children| children.first_mut())
+                .ok_or_else(|| DBError::Execution("Failed to create left executor".to_string()))?;
+            match left_executor.next()? {
+                Some(left_tuple) => {
                     self.current_left_tuple = Some(left_tuple);
                     self.right_exhausted = false;
-                    // Clear the list of processed right RIDs for the new left tuple
+                    self.left_matched = false;
                     self.processed_right_rids.clear();
-                    continue;
-                } else {
-                    debug!("No more left tuples available from left executor");
-                }
-            } else {
-                debug!("Children executors not available");
+                },
+                None => {
+                    debug!("No more left tuples, ending join");
+                    self.current_left_tuple = None;
+                    return Ok(None);
+                },
             }
-
-            // No more tuples from left relation
-            debug!("No more left tuples, ending join");
-            return Ok(None);
         }
     }
 
-- 
2.43.0


From 655eb7a09dc89d013a27b0bcc269f5daef7c35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 40/56] fix: NULL results of unary minus, CASE, COALESCE and
 aggregates keep their type

---
 src/sql/execution/executors/aggregation_executor.rs  | 9 ++++++++-
 src/sql/execution/expressions/case_expression.rs     | 4 ++--
 src/sql/execution/expressions/coalesce_expression.rs | 4 ++--
 src/sql/execution/expressions/unary_op_expression.rs | 4 ++--
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index d7a220a..2f6bc89 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -604,7 +604,14 @@ impl AbstractExecutor for AggregationExecutor {
 
             let mut values = Vec::new();
             values.extend(key.values.iter().cloned());
-            values.extend(value.values.iter().cloned());
+            // An aggregate over no values is a NULL of the aggregate's type
+            for (value, agg_expr) in value.values.iter().zip(&self.aggregate_exprs) {
+                values.push(if value.is_null() {
+                    Value::new_with_type(Val::Null, agg_expr.get_return_type().get_type())
+                } else {
+                    value.clone()
+                });
+            }
 
             debug!("Creating tuple with values: {:?}", values);
             debug!("Output schema: {:?}", self.output_schema);
diff --git a/src/sql/execution/expressions/case_expression.rs b/src/sql/execution/expressions/case_expression.rs
index 9e49458..863917e 100644
--- a/src/sql/execution/expressions/case_expression.rs
+++ b/src/sql/execution/expressions/case_expression.rs
@@ -162,7 +162,7 @@ impl ExpressionOps for CaseExpression {
                 debug!("CASE ELSE result: {} for tuple {:?}", result, tuple_data);
                 Ok(result)
             },
-            None => Ok(Value::new(Val::Null)),
+            None => Ok(Value::new_with_type(Val::Null, self.ret_type.get_type())),
         }
     }
 
@@ -206,7 +206,7 @@ impl ExpressionOps for CaseExpression {
 
         match &self.else_expr {
             Some(expr) => expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema),
-            None => Ok(Value::new(Val::Null)),
+            None => Ok(Value::new_with_type(Val::Null, self.ret_type.get_type())),
         }
     }
 
diff --git a/src/sql/execution/expressions/coalesce_expression.rs b/src/sql/execution/expressions/coalesce_expression.rs
index 3aedd76..8aea955 100644
--- a/src/sql/execution/expressions/coalesce_expression.rs
+++ b/src/sql/execution/expressions/coalesce_expression.rs
@@ -55,7 +55,7 @@ impl ExpressionOps for CoalesceExpression {
             }
         }
         // If all values are null, return null
-        Ok(Value::new(Val::Null))
+        Ok(Value::new_with_type(Val::Null, self.return_type.get_type()))
     }
 
     fn evaluate_join(
@@ -71,7 +71,7 @@ impl ExpressionOps for CoalesceExpression {
                 return Ok(result);
             }
         }
-        Ok(Value::new(Val::Null))
+        Ok(Value::new_with_type(Val::Null, self.return_type.get_type()))
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
diff --git a/src/sql/execution/expressions/unary_op_expression.rs b/src/sql/execution/expressions/unary_op_expression.rs
index a39e9cc..742f6e3 100644
--- a/src/sql/execution/expressions/unary_op_expression.rs
+++ b/src/sql/execution/expressions/unary_op_expression.rs
@@ -92,7 +92,7 @@ impl ExpressionOps for UnaryOpExpression {
             UnaryOperator::Plus => Ok(val), // Unary plus is a no-op
             UnaryOperator::Minus => {
                 if val.is_null() {
-                    return Ok(Value::new(Val::Null));
+                    return Ok(Value::new_with_type(Val::Null, self.return_type.get_type()));
                 }
                 match val.get_val() {
                     Val::TinyInt(i) => i.checked_neg().map(Value::new).ok_or_else(overflow),
@@ -138,7 +138,7 @@ impl ExpressionOps for UnaryOpExpression {
             UnaryOperator::Plus => Ok(val),
             UnaryOperator::Minus => {
                 if val.is_null() {
-                    return Ok(Value::new(Val::Null));
+                    return Ok(Value::new_with_type(Val::Null, self.return_type.get_type()));
                 }
                 match val.get_val() {
                     Val::TinyInt(i) => i.checked_neg().map(Value::new).ok_or_else(overflow),
-- 
2.43.0


From 9be5e651e84eeb97f0c9973500a3415df1f15f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 41/56] fix: a WHERE condition that cannot be evaluated is an
 error

---
 .../execution/executors/filter_executor.rs    | 48 +++++++++----------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/sql/execution/executors/filter_executor.rs b/src/sql/execution/executors/filter_executor.rs
index 2cb7da8..8045b57 100644
--- a/src/sql/execution/executors/filter_executor.rs
+++ b/src/sql/execution/executors/filter_executor.rs
@@ -160,13 +160,13 @@ impl FilterExecutor {
     /// # Returns
     ///
     /// `true` if the tuple passes the filter, `false` otherwise.
-    fn apply_filter(&self, tuple: &Tuple) -> bool {
+    fn apply_filter(&self, tuple: &Tuple) -> Result<bool, DBError> {
         let filter_expr = self.plan.get_filter_expression();
         let schema = self.child_executor.get_output_schema();
 
         match filter_expr.get_filter_type() {
             FilterType::Where => self.apply_where_filter(tuple, schema),
-            FilterType::Having => self.apply_having_filter(schema),
+            FilterType::Having => Ok(self.apply_having_filter(schema)),
         }
     }
 
@@ -183,34 +183,32 @@ impl FilterExecutor {
     /// # Returns
     ///
     /// `true` if predicate evaluates to true, `false` otherwise (including errors).
-    fn apply_where_filter(&self, tuple: &Tuple, schema: &Schema) -> bool {
+    fn apply_where_filter(&self, tuple: &Tuple, schema: &Schema) -> Result<bool, DBError> {
         let filter_expr = self.plan.get_filter_expression();
         debug!(
             "Evaluating WHERE filter on tuple with values: {:?}",
             tuple.get_values()
         );
 
-        match filter_expr.evaluate(tuple, schema) {
-            Ok(value) => match value.get_val() {
-                Val::Boolean(b) => {
-                    debug!(
-                        "WHERE filter evaluation result: {}, for tuple: {:?}",
-                        b,
-                        tuple.get_values()
-                    );
-                    *b
-                },
-                _ => {
-                    error!(
-                        "WHERE filter evaluation returned non-boolean value: {:?}",
-                        value
-                    );
-                    false
-                },
+        let value = filter_expr
+            .evaluate(tuple, schema)
+            .map_err(|e| DBError::Execution(format!("Failed to evaluate WHERE filter: {}", e)))?;
+        match value.get_val() {
+            Val::Boolean(b) => {
+                debug!(
+                    "WHERE filter evaluation result: {}, for tuple: {:?}",
+                    b,
+                    tuple.get_values()
+                );
+                Ok(*b)
             },
-            Err(e) => {
-                error!("Failed to evaluate WHERE filter: {}", e);
-                false
+            Val::Null => Ok(false),
+            _ => {
+                error!(
+                    "WHERE filter evaluation returned non-boolean value: {:?}",
+                    value
+                );
+                Ok(false)
             },
         }
     }
@@ -514,7 +512,7 @@ impl AbstractExecutor for FilterExecutor {
                 match self.child_executor.next()? {
                     Some((tuple, rid)) => {
                         debug!("Processing tuple with RID {:?}", rid);
-                        if self.apply_filter(&tuple) {
+                        if self.apply_filter(&tuple)? {
                             debug!("Found matching tuple with RID {:?}", rid);
                             return Ok(Some((tuple, rid)));
                         }
@@ -532,7 +530,7 @@ impl AbstractExecutor for FilterExecutor {
                     let rid = tuple.get_rid();
                     self.current_group_idx += 1;
 
-                    if self.apply_filter(tuple) {
+                    if self.apply_filter(tuple)? {
                         debug!("Found matching tuple for HAVING clause");
                         return Ok(Some((tuple.clone(), rid)));
                     }
-- 
2.43.0


From 30db95c304b6b44e61862423409104f164586d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:22 +0000
Subject: [PATCH 42/56] fix: DML keeps indexes in step, and selects its rows
 before changing any

---
 src/catalog/catalog_impl.rs                   |  15 ++-
 src/catalog/database.rs                       | 102 +++++++++++-------
 .../execution/executors/delete_executor.rs    |   6 ++
 .../executors/index_scan_executor.rs          |   9 ++
 .../execution/executors/insert_executor.rs    |  39 +++++--
 .../execution/executors/update_executor.rs    |  15 ++-
 src/storage/index/b_plus_tree.rs              |  10 --
 7 files changed, 138 insertions(+), 58 deletions(-)

diff --git a/src/catalog/catalog_impl.rs b/src/catalog/catalog_impl.rs
index cd891f5..f7f63c1 100644
--- a/src/catalog/catalog_impl.rs
+++ b/src/catalog/catalog_impl.rs
@@ -198,12 +198,13 @@ use crate::catalog::system_catalog::{
     SYS_TABLES_OID, SystemCatalogSchemas, SystemCatalogTables, TableCatalogRow,
 };
 use crate::common::config::{IndexOidT, TableOidT};
+use crate::common::rid::RID;
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::storage::index::b_plus_tree::BPlusTree;
 use crate::storage::index::{IndexInfo, IndexType};
 use crate::storage::table::table_heap::{TableHeap, TableInfo};
 use crate::storage::table::table_iterator::TableScanIterator;
-use crate::storage::table::tuple::TupleMeta;
+use crate::storage::table::tuple::{Tuple, TupleMeta};
 use crate::types_db::value::Value;
 
 /// Parameters for creating a catalog with existing data.
@@ -562,6 +563,18 @@ impl Catalog {
             .unwrap_or_default()
     }
 
+    /// Adds the row at `rid` to every index of its table in the current database.
+    ///
+    /// # Parameters
+    /// - `table_name`: The name of the table
+    /// - `tuple`: The row, as just written
+    /// - `rid`: Where the row is stored
+    pub fn insert_into_indexes(&self, table_name: &str, tuple: &Tuple, rid: RID) {
+        if let Some(db) = self.get_current_database() {
+            db.insert_into_indexes(table_name, tuple, rid);
+        }
+    }
+
     /// Gets an index by its OID in the current database.
     ///
     /// # Parameters
diff --git a/src/catalog/database.rs b/src/catalog/database.rs
index 20e3834..1b51379 100644
--- a/src/catalog/database.rs
+++ b/src/catalog/database.rs
@@ -220,12 +220,15 @@ use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
 use crate::catalog::system_catalog::SYS_COLUMNS_OID;
-use crate::common::config::{DataBaseOid, IndexOidT, TableOidT};
+use crate::common::config::{DataBaseOid, INVALID_PAGE_ID, IndexOidT, TableOidT};
+use crate::common::rid::RID;
+use crate::concurrency::transaction::UndoLink;
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::storage::index::b_plus_tree::BPlusTree;
 use crate::storage::index::{IndexInfo, IndexType};
 use crate::storage::table::table_heap::{TableHeap, TableInfo};
 use crate::storage::table::transactional_table_heap::TransactionalTableHeap;
+use crate::storage::table::tuple::Tuple;
 
 /// A static atomic counter for generating unique database IDs
 static NEXT_DATABASE_ID: AtomicU64 = AtomicU64::new(0);
@@ -630,6 +633,39 @@ impl Database {
         self.table_names.keys().cloned().collect()
     }
 
+    /// Adds the row at `rid` to every index of its table.
+    ///
+    /// The entries of earlier versions of the row stay: a transaction that still
+    /// sees such a version finds it by them, and an index scan checks the rows it
+    /// fetches against its predicates.
+    pub fn insert_into_indexes(&self, table_name: &str, tuple: &Tuple, rid: RID) {
+        for (index_info, index) in self.indexes.values() {
+            if index_info.get_table_name() == table_name {
+                Self::insert_index_entry(index, index_info, tuple, rid);
+            }
+        }
+    }
+
+    /// Adds an entry for one version of a row to an index.
+    fn insert_index_entry(
+        index: &Arc<RwLock<BPlusTree>>,
+        index_info: &IndexInfo,
+        tuple: &Tuple,
+        rid: RID,
+    ) {
+        match index_info.get_key_attrs().as_slice() {
+            [column] => {
+                if let Some(key) = tuple.get_values().get(*column) {
+                    index.write().insert(key.clone(), rid);
+                }
+            },
+            [] => {},
+            // For composite keys, we would need to handle this differently
+            // For now, we'll skip composite keys
+            _ => warn!("Composite key index population not yet implemented"),
+        }
+    }
+
     /// Populates a newly created index with existing data from the table
     fn populate_index_with_existing_data(
         &self,
@@ -639,52 +675,44 @@ impl Database {
     ) {
         use log::debug;
 
-        use crate::storage::table::table_iterator::TableScanIterator;
-
         debug!(
             "Populating index '{}' with existing table data",
             index_info.get_index_name()
         );
 
-        let key_attrs = index_info.get_key_attrs();
-
-        // Create a table scan iterator to scan through all tuples
-        let mut iterator = TableScanIterator::new(table_info.clone());
-
+        let table_heap = table_info.get_table_heap();
         let mut entry_count = 0;
 
-        // Iterate through all tuples in the table
-        while let Some((_meta, tuple)) = iterator.next() {
-            let rid = iterator.get_rid();
-
-            // Extract key values for the index
-            let mut key_values = Vec::new();
-            let tuple_values = tuple.get_values();
-
-            for &col_idx in key_attrs {
-                if col_idx < tuple_values.len() {
-                    key_values.push(tuple_values[col_idx].clone());
-                }
-            }
-
-            // For single-column indexes, use the value directly
-            if key_values.len() == 1 {
-                let key_value = key_values[0].clone();
-
-                // Insert into B+ tree
-                let mut btree_write = index.write();
-                btree_write.insert(key_value, rid);
+        // Deleted rows and replaced versions are indexed too: a transaction may still see them,
+        // or the change may yet be rolled back.
+        let mut page_id = table_heap.get_first_page_id();
+        while page_id != INVALID_PAGE_ID {
+            let slots = match table_heap.get_page(page_id) {
+                Ok(page) => page.read().get_num_tuples() as u32,
+                Err(e) => {
+                    warn!("Cannot read page {} for an index: {}", page_id, e);
+                    break;
+                },
+            };
+            for slot in 0..slots {
+                let rid = RID::new(page_id, slot);
+                let Ok((_, tuple)) = table_heap.get_tuple_internal(rid, true) else {
+                    continue;
+                };
+                Self::insert_index_entry(index, index_info, &tuple, rid);
                 entry_count += 1;
 
-                debug!(
-                    "Inserted index entry for key: {:?}, RID: {:?}",
-                    key_values[0], rid
-                );
-            } else if key_values.len() > 1 {
-                // For composite keys, we would need to handle this differently
-                // For now, we'll skip composite keys
-                log::warn!("Composite key index population not yet implemented");
+                let mut link = self.txn_manager.get_undo_link(rid);
+                while let Some(log) = link
+                    .take()
+                    .filter(UndoLink::is_valid)
+                    .and_then(|link| self.txn_manager.get_undo_log_optional(link))
+                {
+                    Self::insert_index_entry(index, index_info, &log.tuple, rid);
+                    link = Some(log.prev_version.clone());
+                }
             }
+            page_id = table_heap.get_next_page_id(page_id);
         }
 
         debug!(
diff --git a/src/sql/execution/executors/delete_executor.rs b/src/sql/execution/executors/delete_executor.rs
index 59644e8..11a9503 100644
--- a/src/sql/execution/executors/delete_executor.rs
+++ b/src/sql/execution/executors/delete_executor.rs
@@ -299,7 +299,13 @@ impl AbstractExecutor for DeleteExecutor {
 
         // Process all tuples from child executor (scan/filter)
         if let Some(ref mut child) = self.child_executor {
+            // Collect the rows before changing any, so that the scan sees the table as it was
+            let mut rids = Vec::new();
             while let Some((_tuple, rid)) = child.next()? {
+                rids.push(rid);
+            }
+
+            for rid in rids {
                 debug!("Processing tuple for deletion with RID {:?}", rid);
 
                 // Delete the tuple from the table
diff --git a/src/sql/execution/executors/index_scan_executor.rs b/src/sql/execution/executors/index_scan_executor.rs
index bc020c8..495d264 100644
--- a/src/sql/execution/executors/index_scan_executor.rs
+++ b/src/sql/execution/executors/index_scan_executor.rs
@@ -54,6 +54,7 @@
 //! Fetched tuples are checked for visibility using the transaction context.
 //! Deleted tuples are automatically skipped.
 
+use std::collections::HashSet;
 use std::sync::Arc;
 
 use log::{debug, error, info};
@@ -121,6 +122,8 @@ pub struct IndexScanExecutor {
     initialized: bool,
     /// Iterator over index entries within the computed bounds.
     iterator: Option<IndexIterator>,
+    /// Rows returned so far: a row has an entry for the key of each of its versions.
+    returned: HashSet<RID>,
 }
 
 impl IndexScanExecutor {
@@ -194,6 +197,7 @@ impl IndexScanExecutor {
             plan,
             table_heap,
             iterator: None,
+            returned: HashSet::new(),
             initialized: false,
         }
     }
@@ -462,6 +466,11 @@ impl AbstractExecutor for IndexScanExecutor {
                         continue;
                     }
 
+                    if !self.returned.insert(rid) {
+                        debug!("Row was returned for another of its keys, skipping");
+                        continue;
+                    }
+
                     debug!("Successfully fetched tuple for RID {:?}", rid);
                     return Ok(Some((tuple, rid)));
                 },
diff --git a/src/sql/execution/executors/insert_executor.rs b/src/sql/execution/executors/insert_executor.rs
index 5760cf0..d5dd030 100644
--- a/src/sql/execution/executors/insert_executor.rs
+++ b/src/sql/execution/executors/insert_executor.rs
@@ -257,6 +257,24 @@ impl InsertExecutor {
         }
     }
 
+    /// Adds a row just inserted to the indexes of the table.
+    fn insert_into_indexes(
+        &self,
+        transactional_table_heap: &TransactionalTableHeap,
+        rid: RID,
+    ) -> Result<(), DBError> {
+        let (_, tuple) = transactional_table_heap
+            .get_table_heap()
+            .get_tuple_internal(rid, false)
+            .map_err(|e| DBError::Execution(format!("Insert failed: {}", e)))?;
+        self.context
+            .read()
+            .get_catalog()
+            .read()
+            .insert_into_indexes(self.plan.get_table_name(), &tuple, rid);
+        Ok(())
+    }
+
     /// Validates all foreign key constraints for a row before insertion.
     ///
     /// Iterates through each column in the schema, checking if any have
@@ -510,7 +528,7 @@ impl AbstractExecutor for InsertExecutor {
         self.executed = true;
 
         // Get catalog and table information
-        let (schema, table_heap, table_oidt, txn_context) = {
+        let (schema, table_heap, table_oidt, has_indexes, txn_context) = {
             let binding = self.context.read();
             let catalog_guard = binding.get_catalog().read();
             let table_info = catalog_guard
@@ -520,9 +538,12 @@ impl AbstractExecutor for InsertExecutor {
             let schema = table_info.get_table_schema().clone();
             let table_heap = table_info.get_table_heap().clone();
             let table_oidt = table_info.get_table_oidt();
+            let has_indexes = !catalog_guard
+                .get_table_indexes(self.plan.get_table_name())
+                .is_empty();
             let txn_context = binding.get_transaction_context().clone();
 
-            (schema, table_heap, table_oidt, txn_context)
+            (schema, table_heap, table_oidt, has_indexes, txn_context)
         };
 
         // Create transactional table heap
@@ -535,8 +556,8 @@ impl AbstractExecutor for InsertExecutor {
         if !values_to_insert.is_empty() {
             debug!("Inserting {} direct value sets", values_to_insert.len());
 
-            // PERFORMANCE OPTIMIZATION: Process inserts in batches
-            if values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
+            // PERFORMANCE OPTIMIZATION: Process inserts in batches, unless indexes need every row
+            if !has_indexes && values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
                 debug!(
                     "Using TRUE bulk insert optimization for {} rows",
                     values_to_insert.len()
@@ -561,7 +582,7 @@ impl AbstractExecutor for InsertExecutor {
                 }
             } else {
                 // OPTIMIZATION: Even for small batches, use bulk insert if we have multiple rows
-                if values_to_insert.len() > 1 {
+                if !has_indexes && values_to_insert.len() > 1 {
                     debug!(
                         "Using TRUE bulk insert for small batch of {} rows",
                         values_to_insert.len()
@@ -574,14 +595,15 @@ impl AbstractExecutor for InsertExecutor {
                     )?;
                     insert_count += batch_result;
                 } else {
-                    // Single row - fall back to individual insert
+                    // Single row or indexed table - fall back to individual insert
                     for values in values_to_insert {
                         match transactional_table_heap.insert_tuple_from_values(
                             values.clone(),
                             &schema,
                             txn_context.clone(),
                         ) {
-                            Ok(_rid) => {
+                            Ok(rid) => {
+                                self.insert_into_indexes(&transactional_table_heap, rid)?;
                                 insert_count += 1;
                                 trace!("Successfully inserted single tuple");
                             },
@@ -638,7 +660,8 @@ impl AbstractExecutor for InsertExecutor {
                         &schema,
                         txn_context.clone(),
                     ) {
-                        Ok(_rid) => {
+                        Ok(rid) => {
+                            self.insert_into_indexes(&transactional_table_heap, rid)?;
                             insert_count += 1;
                             trace!(
                                 "Successfully inserted tuple #{} from VALUES/SELECT",
diff --git a/src/sql/execution/executors/update_executor.rs b/src/sql/execution/executors/update_executor.rs
index 5cbeb77..92b6f13 100644
--- a/src/sql/execution/executors/update_executor.rs
+++ b/src/sql/execution/executors/update_executor.rs
@@ -117,7 +117,13 @@ impl AbstractExecutor for UpdateExecutor {
 
         // Process all tuples from child executor (scan)
         if let Some(ref mut child) = self.child_executor {
-            while let Some((tuple, rid)) = child.next()? {
+            // Collect the rows before changing any, so that the scan sees the table as it was
+            let mut rows = Vec::new();
+            while let Some(row) = child.next()? {
+                rows.push(row);
+            }
+
+            for (tuple, rid) in rows {
                 debug!("Processing tuple for update with RID {:?}", rid);
 
                 // Apply updates based on the update plan
@@ -162,7 +168,12 @@ impl AbstractExecutor for UpdateExecutor {
                     rid,
                     txn_context.clone(),
                 ) {
-                    Ok(_) => {
+                    Ok(rid) => {
+                        self.context
+                            .read()
+                            .get_catalog()
+                            .read()
+                            .insert_into_indexes(self.plan.get_table_name(), &updated_tuple, rid);
                         update_count += 1;
                         trace!(
                             "Successfully updated tuple #{} with RID {:?}",
diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index dc82c0f..d866fd6 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -1639,16 +1639,6 @@ mod split_behavior_tests {
     use super::*;
     use crate::common::logger::initialize_logger;
 
-    /// The order of two index keys: NULL, which no comparison holds for, precedes every value.
-    fn key_order(a: &Value, b: &Value) -> Ordering {
-        match (a.is_null(), b.is_null()) {
-            (false, false) if a.compare_less_than(b) == CmpBool::CmpTrue => Ordering::Less,
-            (false, false) if a.compare_greater_than(b) == CmpBool::CmpTrue => Ordering::Greater,
-            (false, false) => Ordering::Equal,
-            (a_null, b_null) => b_null.cmp(&a_null),
-        }
-    }
-
     /// Test leaf node splitting behavior with a small order
     #[test]
     fn test_leaf_node_split() {
-- 
2.43.0


From 3cd0a125dd794ace6e979e8089f925398d5ab288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:40 +0000
Subject: [PATCH 43/56] fix: multi-row INSERT VALUES gives each row its own
 tuple id

---
 src/storage/table/transactional_table_heap.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index b58c35d..a2de70a 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -721,8 +721,6 @@ impl TransactionalTableHeap {
             values_batch.len()
         );
 
-        // Single lock acquisition for the entire batch
-        let txn_id = txn_context.get_transaction_id();
         let mut successful_inserts = 0;
 
         // Pre-validate all tuples to fail fast if there are constraint violations
@@ -737,18 +735,8 @@ impl TransactionalTableHeap {
 
             // Process chunk and collect pages that need to be written
             for values in chunk {
-                let expanded_values = self
-                    .table_heap
-                    .expand_values_for_schema(values.clone(), schema)?;
-
-                // Create tuple
-                let tuple = Tuple::new(&expanded_values, schema, RID::new(0, 0));
-
-                // Create metadata for the tuple
-                let meta = Arc::new(TupleMeta::new(txn_id));
-
                 // Insert tuple and collect page info for batching
-                match self.insert_tuple(meta, &tuple, txn_context.clone()) {
+                match self.insert_tuple_from_values(values.clone(), schema, txn_context.clone()) {
                     Ok(rid) => {
                         successful_inserts += 1;
 
-- 
2.43.0


From c679c54fa352bf2496037fad91de209f5ad8f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:06 +0000
Subject: [PATCH 44/56] fix: INSERT and UPDATE refuse rows that violate a
 declared constraint

Only NOT NULL for omitted columns and foreign keys of INSERT ... SELECT were
checked. NOT NULL, PRIMARY KEY (over all its columns), UNIQUE and FOREIGN KEY
are now checked for all rows of a statement before any of them is stored.
---
 .../execution/executors/insert_executor.rs    | 422 +++++++++++-------
 .../execution/executors/update_executor.rs    |  21 +-
 2 files changed, 275 insertions(+), 168 deletions(-)

diff --git a/src/sql/execution/executors/insert_executor.rs b/src/sql/execution/executors/insert_executor.rs
index d5dd030..1e407ce 100644
--- a/src/sql/execution/executors/insert_executor.rs
+++ b/src/sql/execution/executors/insert_executor.rs
@@ -77,6 +77,7 @@
 //! Insert operations are automatically instrumented with performance metrics
 //! including row counts, operation duration, and bulk vs. single insert tracking.
 
+use std::collections::HashSet;
 use std::sync::Arc;
 
 use log::{debug, error, info, trace, warn};
@@ -94,6 +95,8 @@ use crate::sql::execution::plans::insert_plan::InsertNode;
 use crate::sql::planner::schema_manager::SchemaManager;
 use crate::storage::table::transactional_table_heap::TransactionalTableHeap;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::types::{CmpBool, Type};
+use crate::types_db::value::Value;
 
 /// Executor for SQL `INSERT` statements.
 ///
@@ -275,153 +278,28 @@ impl InsertExecutor {
         Ok(())
     }
 
-    /// Validates all foreign key constraints for a row before insertion.
-    ///
-    /// Iterates through each column in the schema, checking if any have
-    /// foreign key constraints. For columns with constraints, verifies that
-    /// the value exists in the referenced table.
-    ///
-    /// # Arguments
-    ///
-    /// * `context` - Execution context for catalog access
-    /// * `values` - Row values to validate
-    /// * `schema` - Target table schema with constraint definitions
-    ///
-    /// # Returns
-    ///
-    /// * `Ok(())` - All foreign key constraints satisfied
-    /// * `Err(String)` - Constraint violation with detailed error message
-    ///
-    /// # Constraint Behavior
-    ///
-    /// - NULL values are allowed for foreign key columns (unless NOT NULL)
-    /// - References must exist in the referenced table at check time
-    /// - Validation is performed within the current transaction's visibility
-    ///
-    /// # Example Error
-    ///
-    /// ```text
-    /// Foreign key constraint violation for column 'department_id':
-    /// value '999' does not exist in table 'departments' column 'id'
-    /// ```
-    fn validate_foreign_key_constraints_with_context(
-        context: &Arc<RwLock<ExecutionContext>>,
-        values: &[crate::types_db::value::Value],
+    /// Completes rows with the values they leave out and checks the table's constraints for
+    /// all of them.
+    fn complete_rows(
+        &self,
+        rows: Vec<Vec<Value>>,
         schema: &Schema,
-    ) -> Result<(), String> {
-        for (column_index, column) in schema.get_columns().iter().enumerate() {
-            if let Some(foreign_key_constraint) = column.get_foreign_key() {
-                if column_index >= values.len() {
-                    return Err(format!(
-                        "Value index {} out of bounds for foreign key validation",
-                        column_index
-                    ));
-                }
-
-                let value = &values[column_index];
-
-                // NULL values are allowed for foreign keys (unless column is NOT NULL)
-                if value.is_null() {
-                    continue;
-                }
-
-                // Validate that the foreign key value exists in the referenced table
-                if !Self::validate_foreign_key_reference_with_context(
-                    context,
-                    value,
-                    &foreign_key_constraint.referenced_table,
-                    &foreign_key_constraint.referenced_column,
-                )? {
-                    return Err(format!(
-                        "Foreign key constraint violation for column '{}': value '{}' does not exist in table '{}' column '{}'",
-                        column.get_name(),
-                        value,
-                        foreign_key_constraint.referenced_table,
-                        foreign_key_constraint.referenced_column
-                    ));
-                }
-            }
-        }
-
-        Ok(())
-    }
-
-    /// Checks if a foreign key value exists in the referenced table.
-    ///
-    /// Performs a table scan on the referenced table to find a matching value
-    /// in the specified column. Uses the transaction context to ensure proper
-    /// MVCC visibility.
-    ///
-    /// # Arguments
-    ///
-    /// * `context` - Execution context for catalog and transaction access
-    /// * `value` - The foreign key value to look up
-    /// * `referenced_table` - Name of the table containing the referenced column
-    /// * `referenced_column` - Name of the column being referenced
-    ///
-    /// # Returns
-    ///
-    /// * `Ok(true)` - Value exists in referenced table
-    /// * `Ok(false)` - Value not found in referenced table
-    /// * `Err(String)` - Referenced table or column not found
-    ///
-    /// # Performance Note
-    ///
-    /// This performs a full table scan on the referenced table. For tables
-    /// with indexes on the referenced column, consider using index lookup
-    /// for better performance.
-    ///
-    /// # Concurrency
-    ///
-    /// The lookup uses the current transaction's snapshot, ensuring consistent
-    /// visibility of referenced values according to the isolation level.
-    fn validate_foreign_key_reference_with_context(
-        context: &Arc<RwLock<ExecutionContext>>,
-        value: &crate::types_db::value::Value,
-        referenced_table: &str,
-        referenced_column: &str,
-    ) -> Result<bool, String> {
-        let context_guard = context.read();
-        let catalog_guard = context_guard.get_catalog().read();
-
-        // Get the referenced table info
-        let table_info = catalog_guard
-            .get_table(referenced_table)
-            .ok_or_else(|| format!("Referenced table '{}' not found", referenced_table))?;
-
-        let referenced_schema = table_info.get_table_schema();
-
-        // Find the referenced column index
-        let column_index = referenced_schema
-            .get_columns()
-            .iter()
-            .position(|col| col.get_name() == referenced_column)
-            .ok_or_else(|| {
-                format!(
-                    "Referenced column '{}' not found in table '{}'",
-                    referenced_column, referenced_table
-                )
-            })?;
-
-        // Get transaction context
-        let txn_context = context_guard.get_transaction_context().clone();
-
-        // Create transactional table heap for the referenced table
-        let referenced_table_heap =
-            TransactionalTableHeap::new(table_info.get_table_heap(), table_info.get_table_oidt());
-
-        // Check if the value exists in the referenced table
-        let iterator = referenced_table_heap.make_iterator(Some(txn_context));
-
-        for item in iterator {
-            let (_, tuple) = item;
-            let existing_value = tuple.get_value(column_index);
-            if existing_value == *value {
-                return Ok(true); // Found the referenced value
-            }
-        }
-
-        Ok(false) // Referenced value not found
+        transactional_table_heap: &TransactionalTableHeap,
+    ) -> Result<Vec<Vec<Value>>, DBError> {
+        let table_heap = transactional_table_heap.get_table_heap();
+        let rows = rows
+            .into_iter()
+            .map(|values| table_heap.expand_values_for_schema(values, schema))
+            .collect::<Result<Vec<_>, _>>()
+            .map_err(|e| DBError::Execution(format!("Insert failed: {}", e)))?;
+        check_constraints(
+            &self.context,
+            self.plan.get_table_name(),
+            schema,
+            &rows,
+            &HashSet::new(),
+        )?;
+        Ok(rows)
     }
 }
 
@@ -556,6 +434,12 @@ impl AbstractExecutor for InsertExecutor {
         if !values_to_insert.is_empty() {
             debug!("Inserting {} direct value sets", values_to_insert.len());
 
+            let values_to_insert = &self.complete_rows(
+                values_to_insert.clone(),
+                &schema,
+                &transactional_table_heap,
+            )?;
+
             // PERFORMANCE OPTIMIZATION: Process inserts in batches, unless indexes need every row
             if !has_indexes && values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
                 debug!(
@@ -632,29 +516,21 @@ impl AbstractExecutor for InsertExecutor {
                     all_values.push(values);
                 }
 
-                // Now validate and insert each set of values
-                for values in all_values {
-                    // Map values from child schema to table schema
-                    let mapped_values =
+                // Map values from child schema to table schema
+                let mapped_values = all_values
+                    .iter()
+                    .map(|values| {
                         self.schema_manager
-                            .map_values_to_schema(&values, &child_schema, &schema);
+                            .map_values_to_schema(values, &child_schema, &schema)
+                    })
+                    .collect();
 
-                    debug!("Original values: {:?}", values);
+                // Now validate and insert each set of values
+                for mapped_values in
+                    self.complete_rows(mapped_values, &schema, &transactional_table_heap)?
+                {
                     debug!("Mapped values: {:?}", mapped_values);
 
-                    // Validate foreign key constraints before inserting
-                    if let Err(e) = Self::validate_foreign_key_constraints_with_context(
-                        &self.context,
-                        &mapped_values,
-                        &schema,
-                    ) {
-                        error!("Foreign key constraint violation: {}", e);
-                        return Err(DBError::Execution(format!(
-                            "Insert from VALUES/SELECT failed: {}",
-                            e
-                        )));
-                    }
-
                     match transactional_table_heap.insert_tuple_from_values(
                         mapped_values,
                         &schema,
@@ -728,6 +604,222 @@ impl AbstractExecutor for InsertExecutor {
     }
 }
 
+// Constraint checks for DML statements: INSERT and UPDATE call `check_constraints` with the
+// complete rows they are about to store, before they store any of them, so that a statement
+// that would violate a declared constraint fails without changing the table.
+//
+// NOT NULL:    no NULL in the column.
+// PRIMARY KEY: no NULL in a key column, no other row with the same values in all of them.
+// UNIQUE:      no other row with the same non-NULL value.
+// FOREIGN KEY: a non-NULL value occurs in the referenced column.
+//
+// The rows already in a table are those visible to the statement's transaction.
+
+/// Checks the declared constraints of a table for rows about to be stored in it.
+///
+/// # Arguments
+///
+/// * `context` - Execution context of the statement.
+/// * `table_name` - Table the rows are stored in.
+/// * `schema` - Schema of that table, with its constraints.
+/// * `rows` - The complete rows to be stored.
+/// * `replaced` - Stored rows that the new ones take the place of.
+///
+/// # Errors
+///
+/// Returns `DBError::Execution` naming the first violated constraint.
+pub fn check_constraints(
+    context: &Arc<RwLock<ExecutionContext>>,
+    table_name: &str,
+    schema: &Schema,
+    rows: &[Vec<Value>],
+    replaced: &HashSet<RID>,
+) -> Result<(), DBError> {
+    if rows.is_empty() {
+        return Ok(());
+    }
+    check_not_null(schema, rows)?;
+    check_unique(context, table_name, schema, rows, replaced)?;
+    check_foreign_keys(context, table_name, schema, rows)
+}
+
+fn violation(message: String) -> DBError {
+    DBError::Execution(format!("Constraint violation: {}", message))
+}
+
+fn check_not_null(schema: &Schema, rows: &[Vec<Value>]) -> Result<(), DBError> {
+    for (i, column) in schema.get_columns().iter().enumerate() {
+        if (column.is_not_null() || column.is_primary_key()) && rows.iter().any(|r| r[i].is_null())
+        {
+            return Err(violation(format!(
+                "column '{}' cannot be NULL",
+                column.get_name()
+            )));
+        }
+    }
+    Ok(())
+}
+
+/// The values of a row in the columns of a key, in the types of the columns so that equal
+/// values compare equal; `None` if one of them is NULL.
+fn key_of(row: &[Value], schema: &Schema, columns: &[usize]) -> Option<Vec<Value>> {
+    columns
+        .iter()
+        .map(|&i| {
+            let value = &row[i];
+            if value.is_null() {
+                return None;
+            }
+            let column_type = schema.get_columns()[i].get_type();
+            Some(value.cast_to(column_type).unwrap_or_else(|_| value.clone()))
+        })
+        .collect()
+}
+
+fn check_unique(
+    context: &Arc<RwLock<ExecutionContext>>,
+    table_name: &str,
+    schema: &Schema,
+    rows: &[Vec<Value>],
+    replaced: &HashSet<RID>,
+) -> Result<(), DBError> {
+    let columns = schema.get_columns();
+    let mut keys: Vec<Vec<usize>> = (0..columns.len())
+        .filter(|&i| columns[i].is_unique())
+        .map(|i| vec![i])
+        .collect();
+    let primary_key: Vec<usize> = (0..columns.len())
+        .filter(|&i| columns[i].is_primary_key())
+        .collect();
+    if !primary_key.is_empty() {
+        keys.push(primary_key);
+    }
+    if keys.is_empty() {
+        return Ok(());
+    }
+
+    let duplicate = |key: &[usize]| {
+        let names: Vec<&str> = key.iter().map(|&i| columns[i].get_name()).collect();
+        violation(format!("duplicate value in ({})", names.join(", ")))
+    };
+
+    let mut new_keys: Vec<HashSet<Vec<Value>>> = vec![HashSet::new(); keys.len()];
+    for row in rows {
+        for (key, seen) in keys.iter().zip(new_keys.iter_mut()) {
+            if let Some(values) = key_of(row, schema, key)
+                && !seen.insert(values)
+            {
+                return Err(duplicate(key));
+            }
+        }
+    }
+
+    visit_rows(context, table_name, |rid, stored| {
+        if replaced.contains(&rid) {
+            return Ok(());
+        }
+        for (key, new) in keys.iter().zip(&new_keys) {
+            if key_of(stored, schema, key).is_some_and(|values| new.contains(&values)) {
+                return Err(duplicate(key));
+            }
+        }
+        Ok(())
+    })
+}
+
+fn check_foreign_keys(
+    context: &Arc<RwLock<ExecutionContext>>,
+    table_name: &str,
+    schema: &Schema,
+    rows: &[Vec<Value>],
+) -> Result<(), DBError> {
+    for (i, column) in schema.get_columns().iter().enumerate() {
+        let Some(foreign_key) = column.get_foreign_key() else {
+            continue;
+        };
+        let referenced_column = {
+            let context_guard = context.read();
+            let catalog_guard = context_guard.get_catalog().read();
+            let table_info = catalog_guard
+                .get_table(&foreign_key.referenced_table)
+                .ok_or_else(|| DBError::TableNotFound(foreign_key.referenced_table.clone()))?;
+            table_info
+                .get_table_schema()
+                .get_columns()
+                .iter()
+                .position(|c| c.get_name() == foreign_key.referenced_column)
+                .ok_or_else(|| {
+                    violation(format!(
+                        "referenced column '{}' not found in table '{}'",
+                        foreign_key.referenced_column, foreign_key.referenced_table
+                    ))
+                })?
+        };
+
+        let mut missing: Vec<&Value> = rows
+            .iter()
+            .map(|r| &r[i])
+            .filter(|v| !v.is_null())
+            .collect();
+        // A row may reference one stored by the same statement.
+        if foreign_key.referenced_table == table_name {
+            missing.retain(|v| !rows.iter().any(|r| same_value(&r[referenced_column], v)));
+        }
+        if missing.is_empty() {
+            continue;
+        }
+        visit_rows(context, &foreign_key.referenced_table, |_, stored| {
+            missing.retain(|v| !same_value(&stored[referenced_column], v));
+            Ok(())
+        })?;
+        if let Some(value) = missing.first() {
+            return Err(violation(format!(
+                "foreign key of column '{}': value '{}' does not exist in table '{}' column '{}'",
+                column.get_name(),
+                value,
+                foreign_key.referenced_table,
+                foreign_key.referenced_column
+            )));
+        }
+    }
+    Ok(())
+}
+
+fn same_value(a: &Value, b: &Value) -> bool {
+    a.compare_equals(b) == CmpBool::CmpTrue
+}
+
+/// Calls `visit` for every row of a table that the statement's transaction sees.
+fn visit_rows(
+    context: &Arc<RwLock<ExecutionContext>>,
+    table_name: &str,
+    mut visit: impl FnMut(RID, &[Value]) -> Result<(), DBError>,
+) -> Result<(), DBError> {
+    let (table_heap, table_oid, txn_context) = {
+        let context_guard = context.read();
+        let catalog_guard = context_guard.get_catalog().read();
+        let table_info = catalog_guard
+            .get_table(table_name)
+            .ok_or_else(|| DBError::TableNotFound(table_name.to_string()))?;
+        (
+            table_info.get_table_heap(),
+            table_info.get_table_oidt(),
+            context_guard.get_transaction_context().clone(),
+        )
+    };
+    let table = TransactionalTableHeap::new(table_heap, table_oid);
+    let mut rows = table.make_iterator(Some(txn_context));
+    while let Some((meta, tuple)) = rows.next() {
+        if meta.is_deleted() {
+            continue;
+        }
+        if let Some(rid) = rows.get_last_rid() {
+            visit(rid, &tuple.get_values())?;
+        }
+    }
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use parking_lot::RwLock;
diff --git a/src/sql/execution/executors/update_executor.rs b/src/sql/execution/executors/update_executor.rs
index 92b6f13..f469fea 100644
--- a/src/sql/execution/executors/update_executor.rs
+++ b/src/sql/execution/executors/update_executor.rs
@@ -9,6 +9,7 @@ use crate::common::exception::DBError;
 use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
+use crate::sql::execution::executors::insert_executor::check_constraints;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::update_plan::UpdateNode;
@@ -123,7 +124,8 @@ impl AbstractExecutor for UpdateExecutor {
                 rows.push(row);
             }
 
-            for (tuple, rid) in rows {
+            let mut new_rows = Vec::with_capacity(rows.len());
+            for (tuple, rid) in &rows {
                 debug!("Processing tuple for update with RID {:?}", rid);
 
                 // Apply updates based on the update plan
@@ -136,7 +138,7 @@ impl AbstractExecutor for UpdateExecutor {
                         Expression::Assignment(assignment_expr) => {
                             // Handle AssignmentExpression - the modern format
                             let column_idx = assignment_expr.get_target_column_index();
-                            let new_value = assignment_expr.evaluate(&tuple, &schema)?;
+                            let new_value = assignment_expr.evaluate(tuple, &schema)?;
                             updated_values[column_idx] = new_value;
                         },
                         _ => {
@@ -148,7 +150,7 @@ impl AbstractExecutor for UpdateExecutor {
                                     {
                                         let column_idx = col_ref.get_column_index();
                                         let new_value_expr = &expressions[i + 1];
-                                        let new_value = new_value_expr.evaluate(&tuple, &schema)?;
+                                        let new_value = new_value_expr.evaluate(tuple, &schema)?;
                                         updated_values[column_idx] = new_value;
                                     }
                                 }
@@ -158,6 +160,19 @@ impl AbstractExecutor for UpdateExecutor {
                     }
                 }
 
+                new_rows.push(updated_values);
+            }
+
+            // No row is changed unless every new row satisfies the table's constraints
+            check_constraints(
+                &self.context,
+                self.plan.get_table_name(),
+                &schema,
+                &new_rows,
+                &rows.iter().map(|(_, rid)| *rid).collect(),
+            )?;
+
+            for ((_, rid), updated_values) in rows.into_iter().zip(new_rows) {
                 // Create updated tuple
                 let updated_tuple = Tuple::new(&updated_values, &schema, rid);
 
-- 
2.43.0


From 50deb74611829884c6863afa32c18cbfef8c7c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:20 +0000
Subject: [PATCH 45/56] fix: table OIDs are unique across databases

---
 src/catalog/catalog_impl.rs | 13 ++++++++++---
 src/catalog/database.rs     | 20 ++++++++++++--------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/catalog/catalog_impl.rs b/src/catalog/catalog_impl.rs
index f7f63c1..38745a8 100644
--- a/src/catalog/catalog_impl.rs
+++ b/src/catalog/catalog_impl.rs
@@ -462,9 +462,16 @@ impl Catalog {
     /// # Returns
     /// Some(TableInfo) if table creation succeeds, None if current database is not set or table with same name already exists
     pub fn create_table(&mut self, name: String, schema: Schema) -> Option<TableInfo> {
-        let table_info = self
-            .get_current_database_mut()?
-            .create_table(name.clone(), schema.clone())?;
+        // Locks and undo records are kept by table OID alone, whatever the database.
+        let next_table_oid = self
+            .databases
+            .values()
+            .map(Database::get_next_table_oid)
+            .max()
+            .unwrap_or_default();
+        let database = self.get_current_database_mut()?;
+        database.reserve_table_oids(next_table_oid);
+        let table_info = database.create_table(name.clone(), schema.clone())?;
 
         // Record metadata in system catalog (__tables)
         self.record_system_table(&table_info, &schema);
diff --git a/src/catalog/database.rs b/src/catalog/database.rs
index 1b51379..11519b3 100644
--- a/src/catalog/database.rs
+++ b/src/catalog/database.rs
@@ -291,10 +291,7 @@ impl Database {
         txn_manager: Arc<TransactionManager>,
     ) -> Self {
         // Update the global counter if necessary to avoid future conflicts
-        let current_max = NEXT_DATABASE_ID.load(Ordering::SeqCst);
-        if db_oid >= current_max {
-            NEXT_DATABASE_ID.store(db_oid + 1, Ordering::SeqCst);
-        }
+        NEXT_DATABASE_ID.fetch_max(db_oid + 1, Ordering::SeqCst);
 
         Database {
             name,
@@ -336,10 +333,7 @@ impl Database {
         db_oid: DataBaseOid,
     ) -> Self {
         // Update the global counter if necessary to avoid future conflicts
-        let current_max = NEXT_DATABASE_ID.load(Ordering::SeqCst);
-        if db_oid >= current_max {
-            NEXT_DATABASE_ID.store(db_oid + 1, Ordering::SeqCst);
-        }
+        NEXT_DATABASE_ID.fetch_max(db_oid + 1, Ordering::SeqCst);
 
         Database {
             name,
@@ -365,6 +359,16 @@ impl Database {
         self.db_oid
     }
 
+    /// Returns the OID the next table of this database would get.
+    pub fn get_next_table_oid(&self) -> TableOidT {
+        self.next_table_oid
+    }
+
+    /// Leaves all table OIDs below `next_table_oid` to other databases.
+    pub fn reserve_table_oids(&mut self, next_table_oid: TableOidT) {
+        self.next_table_oid = self.next_table_oid.max(next_table_oid);
+    }
+
     /// Creates a new table in the database and returns its metadata.
     ///
     /// # Parameters
-- 
2.43.0


From b72e11846c4e3e58e51c53aec58c1d71e15f2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:02 +0000
Subject: [PATCH 46/56] fix: the optimizer does not scan indexes on several
 columns, which hold no rows

---
 src/sql/optimizer/optimizer_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index aad5634..5117e0c 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -685,7 +685,9 @@ impl Optimizer {
                     for index_info in indexes {
                         let key_attrs = index_info.get_key_attrs();
 
-                        if !key_attrs.is_empty()
+                        // Indexes on several columns are not maintained and cannot
+                        // stand in for the table
+                        if key_attrs.len() == 1
                             && let Some(table_info) = catalog.get_table(table_name)
                         {
                             let table_schema = table_info.get_table_schema();
-- 
2.43.0


From f118e7e5566422ebc7b4eb1763ec58c6006fdb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:14 +0000
Subject: [PATCH 47/56] fix: a projection of a projection is not dropped by the
 optimizer

---
 src/sql/optimizer/optimizer_impl.rs | 89 ++++++++++++-----------------
 1 file changed, 37 insertions(+), 52 deletions(-)

diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index 5117e0c..1c79c70 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -820,13 +820,13 @@ impl Optimizer {
             },
             LogicalPlanType::Projection {
                 expressions,
-                schema: _,
+                schema,
                 column_mappings: _,
             } => {
                 // Combine consecutive projections
                 if let Some(child) = plan.children.pop() {
-                    if let LogicalPlanType::Projection { .. } = child.plan_type {
-                        return self.merge_projections(expressions.clone(), child);
+                    if let Some(merged) = self.merge_projections(expressions, schema, &child) {
+                        return self.apply_rewrite_rules(merged);
                     }
                     plan.children = vec![self.apply_rewrite_rules(child)?];
                     Ok(plan)
@@ -1073,67 +1073,52 @@ impl Optimizer {
 
     /// Attempts to merge consecutive projection nodes.
     ///
-    /// When two projections are stacked, this method tries to combine them
-    /// into a single projection by rewriting the outer expressions in terms
-    /// of the inner ones.
+    /// When the outer of two stacked projections only picks columns of the inner
+    /// one, they are combined into a single projection of the expressions picked.
     ///
     /// # Arguments
     ///
     /// * `expressions` - Expressions from the outer projection
+    /// * `schema` - Output schema of the outer projection
     /// * `child` - The child plan (potentially another projection)
     ///
     /// # Returns
     ///
-    /// A merged projection or the original structure if merging isn't beneficial.
-    ///
-    /// # Note
-    ///
-    /// Full projection merging logic is TODO - currently returns the child as-is
-    /// if it's a projection.
+    /// A merged projection, or `None` if the two cannot be merged.
     fn merge_projections(
         &self,
-        expressions: Vec<Arc<Expression>>,
-        child: Box<LogicalPlan>,
-    ) -> Result<Box<LogicalPlan>, DBError> {
-        if let LogicalPlanType::Projection { .. } = child.clone().plan_type {
-            // TODO: Implement projection merging logic
-            // This would involve rewriting the outer expressions in terms of the inner ones
-            Ok(child)
-        } else {
-            // Calculate column mappings
-            let input_schema = child.get_schema().unwrap();
-            let mut column_mappings = Vec::with_capacity(expressions.len());
-
-            for expr in &expressions {
-                if let Expression::ColumnRef(col_ref) = expr.as_ref() {
-                    let col_name = col_ref.get_return_type().get_name();
-
-                    // Try to find the column in the input schema
-                    let input_idx = input_schema
-                        .get_columns()
-                        .iter()
-                        .position(|c| c.get_name() == col_name)
-                        .unwrap_or(0); // Default to first column if not found
-
-                    column_mappings.push(input_idx);
-                } else {
-                    // For non-column references, use a placeholder mapping
-                    column_mappings.push(0);
-                }
+        expressions: &[Arc<Expression>],
+        schema: &Schema,
+        child: &LogicalPlan,
+    ) -> Option<Box<LogicalPlan>> {
+        let LogicalPlanType::Projection {
+            expressions: inner, ..
+        } = &child.plan_type
+        else {
+            return None;
+        };
+
+        let mut merged = Vec::with_capacity(expressions.len());
+        let mut column_mappings = Vec::new();
+        for expr in expressions {
+            let Expression::ColumnRef(col_ref) = expr.as_ref() else {
+                return None;
+            };
+            let picked = inner.get(col_ref.get_column_index())?;
+            if let Expression::ColumnRef(inner_ref) = picked.as_ref() {
+                column_mappings.push(inner_ref.get_column_index());
             }
-
-            // TODO: Compute correct schema
-            let output_schema = Schema::new(vec![]);
-
-            Ok(Box::new(LogicalPlan::new(
-                LogicalPlanType::Projection {
-                    expressions,
-                    schema: output_schema,
-                    column_mappings,
-                },
-                vec![child],
-            )))
+            merged.push(picked.clone());
         }
+
+        Some(Box::new(LogicalPlan::new(
+            LogicalPlanType::Projection {
+                expressions: merged,
+                schema: schema.clone(),
+                column_mappings,
+            },
+            child.children.clone(),
+        )))
     }
 
     /// Determines whether to convert a nested loop join to a hash join.
-- 
2.43.0


From e4ebdfd827b75e9d9fa614b49127c0ef4da1fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:55 +0000
Subject: [PATCH 48/56] fix: TopN replaces a limit over a descending sort, not
 a sort over a limit

---
 src/sql/optimizer/optimizer_impl.rs | 40 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index 1c79c70..f67630b 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -172,6 +172,7 @@ use crate::common::exception::DBError;
 use crate::sql::execution::check_option::{CheckOption, CheckOptions};
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::sql::execution::expressions::logic_expression::{LogicExpression, LogicType};
+use crate::sql::execution::plans::sort_plan::OrderDirection;
 use crate::sql::planner::logical_plan::{LogicalPlan, LogicalPlanType};
 // Additional imports for constraint index creation
 use crate::storage::index::IndexType;
@@ -920,21 +921,30 @@ impl Optimizer {
         mut plan: Box<LogicalPlan>,
     ) -> Result<Box<LogicalPlan>, DBError> {
         match &plan.plan_type {
-            LogicalPlanType::Sort {
-                sort_specifications,
-                schema,
-            } => {
-                if let Some(child) = plan.children.pop() {
-                    // Look for opportunities to use TopN instead of Sort
-                    if let LogicalPlanType::Limit { limit, .. } = child.plan_type {
-                        return Ok(Box::new(LogicalPlan::new(
-                            LogicalPlanType::TopN {
-                                k: limit,
-                                sort_specifications: sort_specifications.clone(),
-                                schema: schema.clone(),
-                            },
-                            vec![self.optimize_sort_and_limit(child)?],
-                        )));
+            LogicalPlanType::Limit { limit, .. } => {
+                if let Some(mut child) = plan.children.pop() {
+                    // Look for opportunities to use TopN instead of Sort; the TopN
+                    // operator keeps the largest rows, in descending order
+                    if let LogicalPlanType::Sort {
+                        sort_specifications,
+                        schema,
+                    } = &child.plan_type
+                        && *limit > 0
+                        && !sort_specifications.is_empty()
+                        && sort_specifications
+                            .iter()
+                            .all(|spec| matches!(spec.get_direction(), OrderDirection::Desc))
+                    {
+                        let top_n = LogicalPlanType::TopN {
+                            k: *limit,
+                            sort_specifications: sort_specifications.clone(),
+                            schema: schema.clone(),
+                        };
+                        let mut inputs = Vec::new();
+                        for input in child.children.drain(..) {
+                            inputs.push(self.optimize_sort_and_limit(input)?);
+                        }
+                        return Ok(Box::new(LogicalPlan::new(top_n, inputs)));
                     }
                     plan.children = vec![self.optimize_sort_and_limit(child)?];
                 }
-- 
2.43.0


From c0c03ab7969c1150085a6cec32dd93e7e159bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:06 +0000
Subject: [PATCH 49/56] fix: converting a plan ends when part of it cannot be
 converted

---
 src/sql/planner/logical_plan.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index e149826..a69d18f 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -2886,10 +2886,10 @@ impl<'a> PlanConverter<'a> {
         }
     }
 
-    /// Checks if all children of a node have been successfully processed.
+    /// Checks if all children of a node have been processed.
     ///
-    /// A child is considered processed if its result exists in the cache
-    /// and is not an error.
+    /// A child is considered processed if its result, or the error that
+    /// converting it ended with, exists in the cache.
     ///
     /// # Arguments
     ///
@@ -2897,7 +2897,7 @@ impl<'a> PlanConverter<'a> {
     ///
     /// # Returns
     ///
-    /// `true` if all children have been successfully converted, `false` otherwise.
+    /// `true` if all children have been processed, `false` otherwise.
     fn are_all_children_processed(&self, node: &'a LogicalPlan) -> bool {
         // If the node has no children, return true immediately
         if node.children.is_empty() {
@@ -2911,9 +2911,6 @@ impl<'a> PlanConverter<'a> {
             if !self.results.contains_key(&child_id) {
                 all_children_processed = false;
                 break;
-            } else if let Some(Err(_)) = self.results.get(&child_id) {
-                all_children_processed = false;
-                break;
             }
         }
 
@@ -2996,6 +2993,14 @@ impl<'a> PlanConverter<'a> {
     /// - `Ok(PlanNode)` - The corresponding physical plan node
     /// - `Err(String)` - An error if conversion fails
     fn convert_node(&self, node: &'a LogicalPlan) -> Result<PlanNode, String> {
+        // A plan whose child cannot be converted cannot be converted either
+        for child in &node.children {
+            let child_id = ptr::addr_of!(**child) as usize;
+            if let Some(Err(e)) = self.results.get(&child_id) {
+                return Err(e.clone());
+            }
+        }
+
         let child_plans = self.get_child_plans(node);
 
         match &node.plan_type {
-- 
2.43.0


From 510ca62cbf5b54086e90e344ca86c5c79a7d6e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:06 +0000
Subject: [PATCH 50/56] fix: join conditions may name the tables in either
 order

---
 src/sql/planner/logical_plan.rs | 88 +++++++++++++++++++++++++++++++--
 1 file changed, 85 insertions(+), 3 deletions(-)

diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index a69d18f..ade065e 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -3177,8 +3177,9 @@ impl<'a> PlanConverter<'a> {
                     Err("NestedLoopJoin requires two children".to_string())
                 } else {
                     // Extract join key expressions and fixed predicate from the original predicate
+                    let predicate = orient_join_predicate(predicate, left_schema)?;
                     let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
+                        match extract_join_keys(&predicate) {
                             Ok((l, r, p)) => (l, r, p),
                             Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
                         };
@@ -3205,8 +3206,9 @@ impl<'a> PlanConverter<'a> {
                     Err("NestedIndexJoin requires two children".to_string())
                 } else {
                     // Extract join key expressions and fixed predicate from the original predicate
+                    let predicate = orient_join_predicate(predicate, left_schema)?;
                     let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
+                        match extract_join_keys(&predicate) {
                             Ok((l, r, p)) => (l, r, p),
                             Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
                         };
@@ -3233,12 +3235,19 @@ impl<'a> PlanConverter<'a> {
                     Err("HashJoin requires two children".to_string())
                 } else {
                     // Extract join key expressions and fixed predicate from the original predicate
+                    let predicate = orient_join_predicate(predicate, left_schema)?;
                     let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
+                        match extract_join_keys(&predicate) {
                             Ok((l, r, p)) => (l, r, p),
                             Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
                         };
 
+                    // Join keys are evaluated on the rows of one side only
+                    let right_keys = right_keys
+                        .iter()
+                        .map(|key| right_side_key(key, left_schema))
+                        .collect();
+
                     Ok(PlanNode::HashJoin(HashJoinNode::new(
                         left_schema.clone(),
                         right_schema.clone(),
@@ -3595,6 +3604,79 @@ impl Display for LogicalPlan {
     }
 }
 
+/// Is a column of a join predicate one of the right table?
+///
+/// Predicates number the columns over both tables, the left one first.
+fn on_right_side(col_ref: &ColumnRefExpression, left_schema: &Schema) -> bool {
+    col_ref.get_tuple_index() == 1
+        || col_ref.get_column_index() >= left_schema.get_column_count() as usize
+}
+
+/// Puts the column of the left table first in every equality of a join predicate.
+///
+/// Anything else than equalities of columns is left to [`extract_join_keys`].
+///
+/// # Errors
+///
+/// Returns an error if an equality compares two columns of the same table.
+fn orient_join_predicate(
+    predicate: &Arc<Expression>,
+    left_schema: &Schema,
+) -> Result<Arc<Expression>, String> {
+    let children = predicate.get_children();
+    match (predicate.as_ref(), children.as_slice()) {
+        (Expression::Comparison(comp_expr), [first, second])
+            if matches!(comp_expr.get_comp_type(), ComparisonType::Equal) =>
+        {
+            let (Expression::ColumnRef(a), Expression::ColumnRef(b)) =
+                (first.as_ref(), second.as_ref())
+            else {
+                return Ok(predicate.clone());
+            };
+            match (on_right_side(a, left_schema), on_right_side(b, left_schema)) {
+                (false, true) => Ok(predicate.clone()),
+                (true, false) => Ok(Arc::new(Expression::Comparison(ComparisonExpression::new(
+                    second.clone(),
+                    first.clone(),
+                    ComparisonType::Equal,
+                    vec![second.clone(), first.clone()],
+                )))),
+                _ => Err("Join predicate must compare columns of both tables".to_string()),
+            }
+        },
+        (Expression::Logic(logic_expr), [first, second])
+            if matches!(logic_expr.get_logic_type(), LogicType::And) =>
+        {
+            let first = orient_join_predicate(first, left_schema)?;
+            let second = orient_join_predicate(second, left_schema)?;
+            Ok(Arc::new(Expression::Logic(LogicExpression::new(
+                first.clone(),
+                second.clone(),
+                LogicType::And,
+                vec![first, second],
+            ))))
+        },
+        _ => Ok(predicate.clone()),
+    }
+}
+
+/// Turns a join key numbered over both tables into one for rows of the right table.
+fn right_side_key(key: &Arc<Expression>, left_schema: &Schema) -> Arc<Expression> {
+    match key.as_ref() {
+        Expression::ColumnRef(col_ref) => {
+            let left_width = left_schema.get_column_count() as usize;
+            let column_index = col_ref.get_column_index();
+            Arc::new(Expression::ColumnRef(ColumnRefExpression::new(
+                1,
+                column_index.checked_sub(left_width).unwrap_or(column_index),
+                col_ref.get_return_type().clone(),
+                vec![],
+            )))
+        },
+        _ => key.clone(),
+    }
+}
+
 /// Extracts and normalizes join key expressions from a join predicate.
 ///
 /// This function analyzes a join predicate (typically from an ON clause) and:
-- 
2.43.0


From 61f380985272b0e92b814005ed2198ee45491cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:06 +0000
Subject: [PATCH 51/56] fix: the schema of a hash join does not depend on table
 aliases

---
 src/sql/planner/logical_plan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index ade065e..70cad2e 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -2314,8 +2314,8 @@ impl LogicalPlan {
                 };
 
                 // Extract table names/aliases from the schemas
-                let left_alias = extract_table_alias_from_schema(&left_child_schema).unwrap();
-                let right_alias = extract_table_alias_from_schema(&right_child_schema).unwrap();
+                let left_alias = extract_table_alias_from_schema(&left_child_schema);
+                let right_alias = extract_table_alias_from_schema(&right_child_schema);
 
                 debug!(
                     "Merging schemas in get_schema with aliases: left={:?}, right={:?}",
-- 
2.43.0


From 42516dbbf09a7a587c57a8f3a22df6a30656b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:20 +0000
Subject: [PATCH 52/56] fix: commit returns once the pages it wrote are durable

The pages were only handed to the disk manager's write buffer, so a crash lost
committed rows; and a page that had been evicted in the meantime made the
commit report a failure.
---
 .../transaction_manager_factory.rs            | 44 +++++++++++++------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/concurrency/transaction_manager_factory.rs b/src/concurrency/transaction_manager_factory.rs
index 1670b24..0d48e64 100644
--- a/src/concurrency/transaction_manager_factory.rs
+++ b/src/concurrency/transaction_manager_factory.rs
@@ -143,12 +143,13 @@ use std::sync::Arc;
 use log::{error, warn};
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
-use crate::common::config::INVALID_LSN;
+use crate::common::config::{INVALID_LSN, PageId};
 use crate::concurrency::lock_manager::LockManager;
 use crate::concurrency::transaction::{IsolationLevel, TransactionState};
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::recovery::wal_manager::WALManager;
 use crate::sql::execution::transaction_context::TransactionContext;
+use crate::storage::page::page_types::table_page::TablePage;
 
 /// Coordinator for transaction-side effects: wraps TransactionManager state
 /// transitions with WAL logging, buffer flush of pages dirtied by the txn,
@@ -349,20 +350,15 @@ impl TransactionManagerFactory {
         for (_table_oid, rid) in txn.get_write_set() {
             pages_to_flush.insert(rid.get_page_id());
         }
-        for page_id in pages_to_flush {
-            if let Err(e) = self.buffer_pool_manager.flush_page_async(page_id).await {
-                error!(
-                    "Failed to flush page {} during transaction commit: {}",
-                    page_id, e
-                );
-                if let Err(e) = self
-                    .lock_manager
-                    .force_release_txn(txn.get_transaction_id())
-                {
-                    warn!("Lock release failed after flush error: {}", e);
-                }
-                return false;
+        if let Err(e) = self.make_pages_durable(pages_to_flush).await {
+            error!("Failed to flush during transaction commit: {}", e);
+            if let Err(e) = self
+                .lock_manager
+                .force_release_txn(txn.get_transaction_id())
+            {
+                warn!("Lock release failed after flush error: {}", e);
             }
+            return false;
         }
 
         // Release locks now that commit finished and pages are flushed.
@@ -376,6 +372,26 @@ impl TransactionManagerFactory {
         true
     }
 
+    /// Writes the given pages and forces the disk manager's buffered writes to disk.
+    async fn make_pages_durable(&self, page_ids: HashSet<PageId>) -> Result<(), String> {
+        if page_ids.is_empty() {
+            return Ok(());
+        }
+        for page_id in page_ids {
+            // Holding the guard keeps the page in the pool until it is written.
+            let _page = self
+                .buffer_pool_manager
+                .fetch_page::<TablePage>(page_id)
+                .ok_or_else(|| format!("page {} cannot be fetched", page_id))?;
+            self.buffer_pool_manager.flush_page_async(page_id).await?;
+        }
+        self.buffer_pool_manager
+            .get_disk_manager()
+            .flush()
+            .await
+            .map_err(|e| e.to_string())
+    }
+
     /// Aborts a transaction, rolling back all changes.
     ///
     /// This method:
-- 
2.43.0


From 1137c592b164dd44e8cfdab82f476f904cfdd7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:05 +0000
Subject: [PATCH 53/56] fix: commit also makes the links between a table's
 pages durable

A committed row on a page that another transaction had added was not found by a
scan after a crash when the page before it had not been written.
---
 src/concurrency/transaction_manager.rs        |  2 +-
 .../transaction_manager_factory.rs            | 37 +++++++++++++------
 src/storage/table/table_heap.rs               | 25 +++++++++++++
 3 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index d8117f5..c2896f4 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -1083,7 +1083,7 @@ impl TransactionManager {
     /// # Returns
     ///
     /// The table heap if registered, or `None` otherwise.
-    fn get_table_heap(&self, table_oid: TableOidT) -> Option<Arc<TransactionalTableHeap>> {
+    pub(crate) fn get_table_heap(&self, table_oid: TableOidT) -> Option<Arc<TransactionalTableHeap>> {
         self.state.table_heaps.read().get(&table_oid).cloned()
     }
 }
diff --git a/src/concurrency/transaction_manager_factory.rs b/src/concurrency/transaction_manager_factory.rs
index 0d48e64..5d56d74 100644
--- a/src/concurrency/transaction_manager_factory.rs
+++ b/src/concurrency/transaction_manager_factory.rs
@@ -145,7 +145,7 @@ use log::{error, warn};
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::common::config::{INVALID_LSN, PageId};
 use crate::concurrency::lock_manager::LockManager;
-use crate::concurrency::transaction::{IsolationLevel, TransactionState};
+use crate::concurrency::transaction::{IsolationLevel, Transaction, TransactionState};
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::recovery::wal_manager::WALManager;
 use crate::sql::execution::transaction_context::TransactionContext;
@@ -345,12 +345,7 @@ impl TransactionManagerFactory {
             return false;
         }
 
-        // Flush only the pages dirtied by this transaction.
-        let mut pages_to_flush = HashSet::new();
-        for (_table_oid, rid) in txn.get_write_set() {
-            pages_to_flush.insert(rid.get_page_id());
-        }
-        if let Err(e) = self.make_pages_durable(pages_to_flush).await {
+        if let Err(e) = self.make_writes_durable(&txn).await {
             error!("Failed to flush during transaction commit: {}", e);
             if let Err(e) = self
                 .lock_manager
@@ -372,11 +367,26 @@ impl TransactionManagerFactory {
         true
     }
 
-    /// Writes the given pages and forces the disk manager's buffered writes to disk.
-    async fn make_pages_durable(&self, page_ids: HashSet<PageId>) -> Result<(), String> {
-        if page_ids.is_empty() {
+    /// Flushes the pages dirtied by the transaction, and the links that lead to them, and forces
+    /// the disk manager's buffered writes to disk.
+    async fn make_writes_durable(&self, txn: &Transaction) -> Result<(), String> {
+        let write_set = txn.get_write_set();
+        if write_set.is_empty() {
             return Ok(());
         }
+        let table_oids: HashSet<_> = write_set.iter().map(|(table_oid, _)| *table_oid).collect();
+        let links: Vec<_> = table_oids
+            .into_iter()
+            .filter_map(|table_oid| self.transaction_manager.get_table_heap(table_oid))
+            .map(|table| table.get_table_heap())
+            .map(|heap| (heap.get_volatile_links(), heap))
+            .collect();
+
+        let mut page_ids: HashSet<PageId> =
+            write_set.iter().map(|(_, rid)| rid.get_page_id()).collect();
+        for (from, to) in links.iter().flat_map(|(links, _)| links) {
+            page_ids.extend([*from, *to]);
+        }
         for page_id in page_ids {
             // Holding the guard keeps the page in the pool until it is written.
             let _page = self
@@ -389,7 +399,12 @@ impl TransactionManagerFactory {
             .get_disk_manager()
             .flush()
             .await
-            .map_err(|e| e.to_string())
+            .map_err(|e| e.to_string())?;
+
+        for (links, heap) in links {
+            heap.links_made_durable(&links);
+        }
+        Ok(())
     }
 
     /// Aborts a transaction, rolling back all changes.
diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 5c9f704..ae51365 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -223,6 +223,7 @@
 //!   first_page_id                                        last_page_id
 //! ```
 
+use std::collections::HashSet;
 use std::fmt::{Debug, Formatter};
 use std::sync::Arc;
 
@@ -280,6 +281,9 @@ pub struct TableHeap {
     /// Held (shared) while a row's version chain is read from the top down, and exclusively while one is changed.
     /// Taken before `latch` and before any page lock.
     pub version_latch: RwLock<()>,
+    /// Links from one page to the next that may not be durable yet. No row of a committing transaction need be on
+    /// those pages, but a scan finds the pages behind them only through them.
+    volatile_links: RwLock<HashSet<(PageId, PageId)>>,
 }
 
 /// The TableInfo struct maintains metadata about a table.
@@ -325,6 +329,7 @@ impl TableHeap {
             table_oid,
             latch: RwLock::new(()),
             version_latch: RwLock::new(()),
+            volatile_links: RwLock::new(HashSet::new()),
         };
 
         // Try to create the first page - if this fails, the table will be empty
@@ -373,6 +378,7 @@ impl TableHeap {
             table_oid,
             latch: RwLock::new(()),
             version_latch: RwLock::new(()),
+            volatile_links: RwLock::new(HashSet::new()),
         }
     }
 
@@ -680,6 +686,18 @@ impl TableHeap {
         unimplemented!()
     }
 
+    /// Returns the links between pages that may not be durable yet.
+    pub fn get_volatile_links(&self) -> HashSet<(PageId, PageId)> {
+        self.volatile_links.read().clone()
+    }
+
+    /// Notes that the pages of these links have been made durable.
+    pub fn links_made_durable(&self, links: &HashSet<(PageId, PageId)>) {
+        self.volatile_links
+            .write()
+            .retain(|link| !links.contains(link));
+    }
+
     /// Gets the ID of the next page in the table.
     ///
     /// # Parameters
@@ -893,6 +911,9 @@ impl TableHeap {
             last_page.set_next_page_id(new_page_id);
             last_page.set_dirty(true);
         }
+        self.volatile_links
+            .write()
+            .insert((last_page_id, new_page_id));
 
         // Update table heap's last page pointer
         *self.last_page_id.write() = new_page_id;
@@ -1281,6 +1302,9 @@ impl TableHeap {
             last_page.set_next_page_id(new_page_id);
             last_page.set_dirty(true);
         }
+        self.volatile_links
+            .write()
+            .insert((last_page_id, new_page_id));
 
         // Update table heap's last page pointer
         *self.last_page_id.write() = new_page_id;
@@ -1551,6 +1575,7 @@ impl Clone for TableHeap {
             table_oid: self.table_oid,
             latch: RwLock::new(()),
             version_latch: RwLock::new(()),
+            volatile_links: RwLock::new(self.volatile_links.read().clone()),
         }
     }
 }
-- 
2.43.0


From 4d218acadbbb13951912a2c14395e6147391cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:42 +0000
Subject: [PATCH 54/56] fix: synchronous page I/O inside a task does not run
 out of tokio's budget

A task that evicted or loaded enough pages in one poll - a commit of many rows
on a small pool, a large scan - exhausted its cooperative budget; the nested
executor then polled for ever an operation that would not become ready.
---
 src/buffer/buffer_pool_manager_async.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 6ad9497..2110d81 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -262,6 +262,14 @@ pub struct BufferPoolManager {
 ///
 /// The pages collection contains trait objects which don't implement Debug,
 /// so we skip it in the debug output.
+/// Runs a disk operation to completion from synchronous code.
+///
+/// The caller may itself be inside a task. Tokio gives every poll of a task a budget of operations, after which
+/// they all report that they are not ready until the task yields; here it never would, so the budget is lifted.
+fn block_on_io<F: Future>(operation: F) -> F::Output {
+    futures::executor::block_on(tokio::task::unconstrained(operation))
+}
+
 impl Debug for BufferPoolManager {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.debug_struct("BufferPoolManager")
@@ -321,7 +329,7 @@ impl BufferPoolManager {
         let free_list: Vec<FrameId> = (0..pool_size as FrameId).collect();
 
         // An existing database keeps its pages: new ones come after them.
-        let db_file_size = futures::executor::block_on(disk_manager.get_db_file_size())
+        let db_file_size = block_on_io(disk_manager.get_db_file_size())
             .map_err(|e| format!("Failed to read database file size: {}", e))?;
 
         info!(
@@ -680,8 +688,7 @@ impl BufferPoolManager {
 
         // Use AsyncDiskManager's read_page which checks its multi-level cache first
         // This avoids duplication since AsyncDiskManager handles cache levels internally
-        futures::executor::block_on(async { self.disk_manager.read_page(page_id).await })
-            .map_err(std::io::Error::other)
+        block_on_io(self.disk_manager.read_page(page_id)).map_err(std::io::Error::other)
     }
 
     /// Load page bypassing AsyncDiskManager cache (BPM as sole cache)
@@ -691,8 +698,7 @@ impl BufferPoolManager {
         // When BPM wants to be the sole cache manager, we still use AsyncDiskManager
         // for I/O but could add a bypass_cache flag in the future
         // For now, we'll use the regular read_page but this could be optimized
-        futures::executor::block_on(async { self.disk_manager.read_page(page_id).await })
-            .map_err(std::io::Error::other)
+        block_on_io(self.disk_manager.read_page(page_id)).map_err(std::io::Error::other)
     }
 
     /// Creates a page from raw data with proper type checking
@@ -1278,9 +1284,7 @@ impl BufferPoolManager {
         };
 
         // Use block_on for sync eviction path
-        let result = futures::executor::block_on(async {
-            self.disk_manager.write_page(page_id, data_buffer).await
-        });
+        let result = block_on_io(self.disk_manager.write_page(page_id, data_buffer));
 
         result.map_err(|e| format!("Failed to write page to disk: {}", e))?;
 
-- 
2.43.0


From 2e6bf67045dd1c6821ea10fb4b799d99f11af36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:44 +0000
Subject: [PATCH 55/56] fix: string functions count characters and pass NULL
 through

SUBSTRING, OVERLAY and POSITION worked on byte offsets: a multi-byte
character gave wrong positions or a panic. Positions outside 32 bits were
cut off, OVERLAY and UPPER/LOWER failed on NULL, SUBSTRING ignored a NULL
length past the end, and TRIM(<what> FROM <expr>) ignored <what>.
---
 src/sql/execution/expression_parser.rs        |  7 +-
 .../expressions/overlay_expression.rs         | 38 ++++++++---
 .../expressions/position_expression.rs        |  4 +-
 .../expressions/string_expression.rs          |  2 +
 .../expressions/substring_expression.rs       | 68 ++++++++-----------
 5 files changed, 67 insertions(+), 52 deletions(-)

diff --git a/src/sql/execution/expression_parser.rs b/src/sql/execution/expression_parser.rs
index b6328f5..9a64a92 100644
--- a/src/sql/execution/expression_parser.rs
+++ b/src/sql/execution/expression_parser.rs
@@ -1627,7 +1627,7 @@ impl ExpressionParser {
             Expr::Trim {
                 expr,
                 trim_where,
-                trim_what: _,
+                trim_what,
                 trim_characters,
             } => {
                 let parsed_expr = Arc::new(self.parse_expression(expr, schema)?);
@@ -1642,7 +1642,10 @@ impl ExpressionParser {
                 let mut children = vec![parsed_expr];
 
                 // Add trim characters if specified
-                if let Some(chars) = trim_characters {
+                if let Some(what) = trim_what {
+                    // TRIM(<what> FROM <expr>)
+                    children.push(Arc::new(self.parse_expression(what, schema)?));
+                } else if let Some(chars) = trim_characters {
                     // If there are multiple trim characters, concatenate them into a single string
                     if chars.len() > 1 {
                         // Create a string literal expression that concatenates all trim characters
diff --git a/src/sql/execution/expressions/overlay_expression.rs b/src/sql/execution/expressions/overlay_expression.rs
index 5f811bb..351a4f6 100644
--- a/src/sql/execution/expressions/overlay_expression.rs
+++ b/src/sql/execution/expressions/overlay_expression.rs
@@ -56,9 +56,18 @@ impl ExpressionOps for OverlayExpression {
             None
         };
 
+        // A NULL argument makes the result NULL
+        if [&base_str, &overlay_str, &from_pos]
+            .into_iter()
+            .chain(for_len.iter())
+            .any(|v| v.is_null())
+        {
+            return Ok(Value::new(Val::Null));
+        }
+
         // Extract string values
         let base_text = match base_str.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+            Val::VarLen(s) | Val::ConstLen(s) => s.chars().collect::<Vec<char>>(),
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "OVERLAY base expression must be a string, got {:?}",
@@ -115,13 +124,13 @@ impl ExpressionOps for OverlayExpression {
                     )));
                 },
             },
-            None => overlay_text.len(), // When FOR is not specified, replace characters equal to the length of overlay string
+            None => overlay_text.chars().count(), // When FOR is not specified, replace characters equal to the length of overlay string
         };
 
         // Perform the overlay operation
         let result = if start_pos >= base_text.len() {
             // If start position is beyond the end of the string, just append the overlay string
-            format!("{}{}", base_text, overlay_text)
+            format!("{}{}", base_text.iter().collect::<String>(), overlay_text)
         } else {
             // Calculate the end position for replacement
             let end_pos = if replace_len == 0 {
@@ -131,9 +140,9 @@ impl ExpressionOps for OverlayExpression {
             };
             format!(
                 "{}{}{}",
-                &base_text[0..start_pos],
+                base_text[..start_pos].iter().collect::<String>(),
                 overlay_text,
-                &base_text[end_pos..]
+                base_text[end_pos..].iter().collect::<String>()
             )
         };
 
@@ -162,9 +171,18 @@ impl ExpressionOps for OverlayExpression {
             None
         };
 
+        // A NULL argument makes the result NULL
+        if [&base_str, &overlay_str, &from_pos]
+            .into_iter()
+            .chain(for_len.iter())
+            .any(|v| v.is_null())
+        {
+            return Ok(Value::new(Val::Null));
+        }
+
         // Extract string values
         let base_text = match base_str.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+            Val::VarLen(s) | Val::ConstLen(s) => s.chars().collect::<Vec<char>>(),
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "OVERLAY base expression must be a string, got {:?}",
@@ -221,13 +239,13 @@ impl ExpressionOps for OverlayExpression {
                     )));
                 },
             },
-            None => overlay_text.len(), // When FOR is not specified, replace characters equal to the length of overlay string
+            None => overlay_text.chars().count(), // When FOR is not specified, replace characters equal to the length of overlay string
         };
 
         // Perform the overlay operation
         let result = if start_pos >= base_text.len() {
             // If start position is beyond the end of the string, just append the overlay string
-            format!("{}{}", base_text, overlay_text)
+            format!("{}{}", base_text.iter().collect::<String>(), overlay_text)
         } else {
             // Calculate the end position for replacement
             let end_pos = if replace_len == 0 {
@@ -239,9 +257,9 @@ impl ExpressionOps for OverlayExpression {
             // Construct the result string
             format!(
                 "{}{}{}",
-                &base_text[0..start_pos],
+                base_text[..start_pos].iter().collect::<String>(),
                 overlay_text,
-                &base_text[end_pos..]
+                base_text[end_pos..].iter().collect::<String>()
             )
         };
 
diff --git a/src/sql/execution/expressions/position_expression.rs b/src/sql/execution/expressions/position_expression.rs
index 0ac8adb..60b9f2e 100644
--- a/src/sql/execution/expressions/position_expression.rs
+++ b/src/sql/execution/expressions/position_expression.rs
@@ -68,7 +68,7 @@ impl ExpressionOps for PositionExpression {
 
         // Find the position (1-indexed as per SQL standard)
         let position = match string_str.find(substring_str) {
-            Some(pos) => (pos + 1) as i32, // Convert to 1-indexed
+            Some(pos) => (string_str[..pos].chars().count() + 1) as i32, // Convert to 1-indexed
             None => 0,                     // Not found
         };
 
@@ -116,7 +116,7 @@ impl ExpressionOps for PositionExpression {
 
         // Find the position (1-indexed as per SQL standard)
         let position = match string_str.find(substring_str) {
-            Some(pos) => (pos + 1) as i32, // Convert to 1-indexed
+            Some(pos) => (string_str[..pos].chars().count() + 1) as i32, // Convert to 1-indexed
             None => 0,                     // Not found
         };
 
diff --git a/src/sql/execution/expressions/string_expression.rs b/src/sql/execution/expressions/string_expression.rs
index 7271f8d..abd9cea 100644
--- a/src/sql/execution/expressions/string_expression.rs
+++ b/src/sql/execution/expressions/string_expression.rs
@@ -62,6 +62,7 @@ impl ExpressionOps for StringExpression {
                 let computed = self.perform_computation(s);
                 Ok(Value::new(Val::VarLen(computed)))
             },
+            Val::Null => Ok(arg_value),
             _ => Err(ExpressionError::InvalidStringExpressionType),
         }
     }
@@ -81,6 +82,7 @@ impl ExpressionOps for StringExpression {
                 let computed = self.perform_computation(s);
                 Ok(Value::new(Val::VarLen(computed)))
             },
+            Val::Null => Ok(arg_value),
             _ => Err(ExpressionError::InvalidStringExpressionType),
         }
     }
diff --git a/src/sql/execution/expressions/substring_expression.rs b/src/sql/execution/expressions/substring_expression.rs
index 9e5bcf1..46dffc5 100644
--- a/src/sql/execution/expressions/substring_expression.rs
+++ b/src/sql/execution/expressions/substring_expression.rs
@@ -71,7 +71,7 @@ impl ExpressionOps for SubstringExpression {
 
         // Get the string value
         let string = match string_val.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+            Val::VarLen(s) | Val::ConstLen(s) => s.chars().collect::<Vec<char>>(),
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "SUBSTRING requires string input, got {:?}",
@@ -88,10 +88,10 @@ impl ExpressionOps for SubstringExpression {
 
         // Get the start position (1-indexed in SQL)
         let start_pos = match from_val.get_val() {
-            Val::Integer(i) => *i,
-            Val::BigInt(i) => *i as i32,
-            Val::SmallInt(i) => *i as i32,
-            Val::TinyInt(i) => *i as i32,
+            Val::Integer(i) => *i as i64,
+            Val::BigInt(i) => *i,
+            Val::SmallInt(i) => *i as i64,
+            Val::TinyInt(i) => *i as i64,
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "SUBSTRING FROM requires numeric input, got {:?}",
@@ -105,7 +105,7 @@ impl ExpressionOps for SubstringExpression {
         let start_idx = if start_pos > 0 {
             (start_pos - 1) as usize
         } else if start_pos < 0 {
-            let abs_pos = (-start_pos) as usize;
+            let abs_pos = start_pos.unsigned_abs() as usize;
             if abs_pos > string.len() {
                 0 // If negative position is beyond string start, start from beginning
             } else {
@@ -115,11 +115,6 @@ impl ExpressionOps for SubstringExpression {
             0 // If start_pos is 0, start from beginning (SQL standard says this is invalid, but many DBs allow it)
         };
 
-        // If start is beyond the end of the string, return empty string
-        if start_idx >= string.len() {
-            return Ok(Value::new(""));
-        }
-
         // If FOR expression is provided, evaluate it
         if let Some(for_expr) = &self.for_expr {
             let for_val = for_expr.evaluate(tuple, schema)?;
@@ -129,10 +124,10 @@ impl ExpressionOps for SubstringExpression {
 
             // Get the length
             let length = match for_val.get_val() {
-                Val::Integer(i) => *i,
-                Val::BigInt(i) => *i as i32,
-                Val::SmallInt(i) => *i as i32,
-                Val::TinyInt(i) => *i as i32,
+                Val::Integer(i) => *i as i64,
+                Val::BigInt(i) => *i,
+                Val::SmallInt(i) => *i as i64,
+                Val::TinyInt(i) => *i as i64,
                 _ => {
                     return Err(ExpressionError::InvalidOperation(format!(
                         "SUBSTRING FOR requires numeric input, got {:?}",
@@ -142,19 +137,20 @@ impl ExpressionOps for SubstringExpression {
             };
 
             // If length is negative, return empty string (SQL standard behavior)
-            if length <= 0 {
+            // (as when the start is beyond the end of the string)
+            if length <= 0 || start_idx >= string.len() {
                 return Ok(Value::new(""));
             }
 
             // Calculate end index (exclusive)
-            let end_idx = std::cmp::min(start_idx + length as usize, string.len());
+            let end_idx = start_idx + std::cmp::min(length as usize, string.len() - start_idx);
 
             // Extract substring
-            let result = string[start_idx..end_idx].to_string();
+            let result = string[start_idx..end_idx].iter().collect::<String>();
             Ok(Value::new(result))
         } else {
             // If no FOR expression, return rest of string
-            let result = string[start_idx..].to_string();
+            let result = string.iter().skip(start_idx).collect::<String>();
             Ok(Value::new(result))
         }
     }
@@ -176,7 +172,7 @@ impl ExpressionOps for SubstringExpression {
 
         // Get the string value
         let string = match string_val.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
+            Val::VarLen(s) | Val::ConstLen(s) => s.chars().collect::<Vec<char>>(),
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "SUBSTRING requires string input, got {:?}",
@@ -195,10 +191,10 @@ impl ExpressionOps for SubstringExpression {
 
         // Get the start position (1-indexed in SQL)
         let start_pos = match from_val.get_val() {
-            Val::Integer(i) => *i,
-            Val::BigInt(i) => *i as i32,
-            Val::SmallInt(i) => *i as i32,
-            Val::TinyInt(i) => *i as i32,
+            Val::Integer(i) => *i as i64,
+            Val::BigInt(i) => *i,
+            Val::SmallInt(i) => *i as i64,
+            Val::TinyInt(i) => *i as i64,
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "SUBSTRING FROM requires numeric input, got {:?}",
@@ -212,7 +208,7 @@ impl ExpressionOps for SubstringExpression {
         let start_idx = if start_pos > 0 {
             (start_pos - 1) as usize
         } else if start_pos < 0 {
-            let abs_pos = (-start_pos) as usize;
+            let abs_pos = start_pos.unsigned_abs() as usize;
             if abs_pos > string.len() {
                 0 // If negative position is beyond string start, start from beginning
             } else {
@@ -222,11 +218,6 @@ impl ExpressionOps for SubstringExpression {
             0 // If start_pos is 0, start from beginning (SQL standard says this is invalid, but many DBs allow it)
         };
 
-        // If start is beyond the end of the string, return empty string
-        if start_idx >= string.len() {
-            return Ok(Value::new(""));
-        }
-
         // If FOR expression is provided, evaluate it
         if let Some(for_expr) = &self.for_expr {
             let for_val =
@@ -237,10 +228,10 @@ impl ExpressionOps for SubstringExpression {
 
             // Get the length
             let length = match for_val.get_val() {
-                Val::Integer(i) => *i,
-                Val::BigInt(i) => *i as i32,
-                Val::SmallInt(i) => *i as i32,
-                Val::TinyInt(i) => *i as i32,
+                Val::Integer(i) => *i as i64,
+                Val::BigInt(i) => *i,
+                Val::SmallInt(i) => *i as i64,
+                Val::TinyInt(i) => *i as i64,
                 _ => {
                     return Err(ExpressionError::InvalidOperation(format!(
                         "SUBSTRING FOR requires numeric input, got {:?}",
@@ -250,19 +241,20 @@ impl ExpressionOps for SubstringExpression {
             };
 
             // If length is negative, return empty string (SQL standard behavior)
-            if length <= 0 {
+            // (as when the start is beyond the end of the string)
+            if length <= 0 || start_idx >= string.len() {
                 return Ok(Value::new(""));
             }
 
             // Calculate end index (exclusive)
-            let end_idx = std::cmp::min(start_idx + length as usize, string.len());
+            let end_idx = start_idx + std::cmp::min(length as usize, string.len() - start_idx);
 
             // Extract substring
-            let result = string[start_idx..end_idx].to_string();
+            let result = string[start_idx..end_idx].iter().collect::<String>();
             Ok(Value::new(result))
         } else {
             // If no FOR expression, return rest of string
-            let result = string[start_idx..].to_string();
+            let result = string.iter().skip(start_idx).collect::<String>();
             Ok(Value::new(result))
         }
     }
-- 
2.43.0


From f680c72c6cf472be29f9cc43660647db62d9619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:01:38 +0000
Subject: [PATCH 56/56] fix: BEGIN, COMMIT and ROLLBACK sent as SQL text act on
 the session's transaction

---
 src/common/db_instance.rs | 52 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/common/db_instance.rs b/src/common/db_instance.rs
index b940c0b..9f082bd 100644
--- a/src/common/db_instance.rs
+++ b/src/common/db_instance.rs
@@ -295,6 +295,9 @@ use std::sync::Arc;
 
 use log::{debug, error, info, warn};
 use parking_lot::{Mutex, RwLock};
+use sqlparser::ast::{Statement, TransactionIsolationLevel, TransactionMode};
+use sqlparser::dialect::GenericDialect;
+use sqlparser::parser::Parser;
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::buffer::lru_k_replacer::LRUKReplacer;
@@ -855,6 +858,14 @@ impl DBInstance {
         query: DatabaseRequest,
         client_id: u64,
     ) -> Result<DatabaseResponse, DBError> {
+        // BEGIN, COMMIT and ROLLBACK sent as SQL text are about the session's transaction
+        let query = match query {
+            DatabaseRequest::Query(sql) => {
+                Self::transaction_request(&sql).unwrap_or(DatabaseRequest::Query(sql))
+            },
+            other => other,
+        };
+
         match query {
             DatabaseRequest::Query(sql) => {
                 // Extract session data first
@@ -964,6 +975,47 @@ impl DBInstance {
         }
     }
 
+    /// The request a transaction-control statement stands for, if `sql` is one.
+    fn transaction_request(sql: &str) -> Option<DatabaseRequest> {
+        let mut statements = Parser::parse_sql(&GenericDialect {}, sql).ok()?;
+        if statements.len() != 1 {
+            return None;
+        }
+        match statements.pop()? {
+            Statement::StartTransaction {
+                modes, statements, ..
+            } if statements.is_empty() => {
+                let mut isolation_level = IsolationLevel::ReadCommitted;
+                for mode in modes {
+                    if let TransactionMode::IsolationLevel(level) = mode {
+                        isolation_level = match level {
+                            TransactionIsolationLevel::ReadUncommitted => {
+                                IsolationLevel::ReadUncommitted
+                            },
+                            TransactionIsolationLevel::ReadCommitted => {
+                                IsolationLevel::ReadCommitted
+                            },
+                            TransactionIsolationLevel::RepeatableRead => {
+                                IsolationLevel::RepeatableRead
+                            },
+                            TransactionIsolationLevel::Serializable => {
+                                IsolationLevel::Serializable
+                            },
+                            TransactionIsolationLevel::Snapshot => IsolationLevel::Snapshot,
+                        };
+                    }
+                }
+                Some(DatabaseRequest::BeginTransaction { isolation_level })
+            },
+            Statement::Commit { chain: false, .. } => Some(DatabaseRequest::Commit),
+            Statement::Rollback {
+                chain: false,
+                savepoint: None,
+            } => Some(DatabaseRequest::Rollback),
+            _ => None,
+        }
+    }
+
     /// Executes a SQL query for a client session.
     ///
     /// Uses the session's active transaction if present, otherwise auto-commits.
-- 
2.43.0


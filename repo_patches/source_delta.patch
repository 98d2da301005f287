From b035cec0f4bcfefa26ecb444ebdda01e97f87525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 01/36] fix: do not pause a worker connection on its byte
 budget while a consumer starves

All the partitions requested from a task are multiplexed over one gRPC stream. When the
buffered bytes of partition A reached the budget, the stream was not pulled any more, even
if the consumers could only drain A after receiving data for partition B (e.g. a
sort-preserving merge waiting for its slowest input), so the query hung forever.
---
 src/protocol/grpc/worker_client.rs | 36 +++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index 060d8e8..5c61241 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -33,12 +33,11 @@ use prost::Message;
 use std::borrow::Cow;
 use std::pin::Pin;
 use std::sync::Arc;
-use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use std::task::{Context, Poll};
 use std::time::{Duration, SystemTime, UNIX_EPOCH};
 use tokio::sync::Notify;
 use tokio::sync::mpsc::UnboundedSender;
-use tokio_stream::wrappers::UnboundedReceiverStream;
 use tokio_util::sync::CancellationToken;
 use tonic::metadata::MetadataMap;
 use tonic::{Request, Status};
@@ -141,6 +140,14 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         let mem_available_notify = Arc::new(Notify::new());
         let mem_available_notify_for_task = Arc::clone(&mem_available_notify);
 
+        // Per partition flag telling whether its consumer is waiting for data on an empty queue.
+        // All the partitions are multiplexed over one gRPC stream, so the data a consumer waits for
+        // can only arrive by pulling past the messages of its siblings.
+        let starving = (0..target_partition_range.len())
+            .map(|_| AtomicBool::new(false))
+            .collect::<Arc<[_]>>();
+        let starving_for_task = Arc::clone(&starving);
+
         let first_poll_notify = Arc::new(Notify::new());
         let first_poll_notify_for_task = Arc::clone(&first_poll_notify);
 
@@ -190,8 +197,12 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // consumers haven't drained enough. This propagates flow control all
                 // the way back to the worker without coupling sibling partitions.
                 // We always allow a message through when reservation == 0 to avoid
-                // livelock if a single message is larger than the budget.
-                while memory_reservation.size() >= buffer_budget_bytes {
+                // livelock if a single message is larger than the budget, and while some consumer
+                // waits on an empty partition: it might be the one everybody else depends on (e.g.
+                // a sort-preserving merge waiting for its slowest input), so pausing would deadlock.
+                while memory_reservation.size() >= buffer_budget_bytes
+                    && !starving_for_task.iter().any(|v| v.load(Ordering::SeqCst))
+                {
                     tokio::select! {
                         biased;
                         _ = cancel.cancelled() => return,
@@ -263,6 +274,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                     max_mem_used.set(curr_max_mem);
                 }
 
+                starving_for_task[sender_i].store(false, Ordering::SeqCst);
                 if o_tx.send(Ok((flight_data, flight_metadata))).is_err() {
                     // The receiver for this partition was dropped (e.g. a hash join partition
                     // completed early without consuming its probe side). Don't exit: other
@@ -278,14 +290,24 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         let not_consumed_streams = Arc::new(AtomicUsize::new(per_partition_rx.len()));
 
         let mut result = Vec::with_capacity(per_partition_rx.len());
-        for partition_receiver in per_partition_rx {
+        for (i, mut partition_receiver) in per_partition_rx.into_iter().enumerate() {
             let task = Arc::clone(&task);
             let cancel_token = cancel_token.clone();
 
             let first_poll_notify = Arc::clone(&first_poll_notify);
+            let starving_for_stream = Arc::clone(&starving);
+            let mem_available_notify_for_stream = Arc::clone(&mem_available_notify);
             let stream = async move {
                 first_poll_notify.notify_one();
-                UnboundedReceiverStream::new(partition_receiver)
+                futures::stream::poll_fn(move |cx| {
+                    let poll = partition_receiver.poll_recv(cx);
+                    starving_for_stream[i].store(poll.is_pending(), Ordering::SeqCst);
+                    if poll.is_pending() {
+                        // Wake the demux task in case it is blocked on the byte budget.
+                        mem_available_notify_for_stream.notify_one();
+                    }
+                    poll
+                })
             }
             .flatten_stream();
 
@@ -305,8 +327,10 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
 
             // When the stream is dropped, cancel the background task to ensure prompt cleanup.
             let not_consumed_streams = Arc::clone(&not_consumed_streams);
+            let starving = Arc::clone(&starving);
             result.push(
                 on_drop_stream(stream, move || {
+                    starving[i].store(false, Ordering::SeqCst);
                     let remaining_streams = not_consumed_streams.fetch_sub(1, Ordering::SeqCst) - 1;
                     if remaining_streams == 0 {
                         cancel_token.cancel();
-- 
2.43.0


From 8e86b0b6f2cd9adff5ab7f4e8b9a2e948d10c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 02/36] fix: do not share execution state across tasks executed
 by the local worker

Without serde in between, the tasks of a stage that are routed to the local worker shared the
same plan nodes, so that a second task failed with 'stream was already consumed', or read the
repartition channels, join build sides and dynamic filters of its sibling.
---
 src/protocol/in_process/worker_client.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/protocol/in_process/worker_client.rs b/src/protocol/in_process/worker_client.rs
index 81a4ccc..8138e07 100644
--- a/src/protocol/in_process/worker_client.rs
+++ b/src/protocol/in_process/worker_client.rs
@@ -1,12 +1,13 @@
 use crate::{
     CoordinatorToWorkerMsg, ExecuteTaskRequest, GetWorkerInfoRequest, GetWorkerInfoResponse,
-    SetPlanRequest, Worker, WorkerChannel, WorkerToCoordinatorMsg,
+    MaybeEncoded, SetPlanRequest, Worker, WorkerChannel, WorkerToCoordinatorMsg,
 };
 use async_trait::async_trait;
 use datafusion::arrow::array::RecordBatch;
 use datafusion::common::Result;
 use datafusion::execution::TaskContext;
 use datafusion::physical_expr_common::metrics::ExecutionPlanMetricsSet;
+use datafusion::physical_plan::execution_plan::reset_plan_states;
 use futures::StreamExt;
 use futures::stream::BoxStream;
 use http::HeaderMap;
@@ -30,11 +31,17 @@ impl WorkerChannel for InProcessWorkerClient {
     async fn coordinator_channel(
         &mut self,
         headers: HeaderMap,
-        set_plan_request: SetPlanRequest,
+        mut set_plan_request: SetPlanRequest,
         c2w_stream: BoxStream<'static, CoordinatorToWorkerMsg>,
         _metrics: ExecutionPlanMetricsSet,
         _task_ctx: &Arc<TaskContext>,
     ) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
+        // Without serde in between, the plans of all the tasks of a stage share the same nodes.
+        // As several of those tasks might land in the local worker, each one needs its own copy of
+        // the execution state kept in the nodes (e.g. repartition channels, join build sides).
+        if let MaybeEncoded::Decoded(plan) = &mut set_plan_request.plan {
+            *plan = reset_plan_states(Arc::clone(plan))?;
+        }
         self.local_worker
             .coordinator_channel(headers, set_plan_request, c2w_stream.map(Ok).boxed())
             .await
-- 
2.43.0


From f5eaba0a468c8d4a92c4779bb50aa95a77a074e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 03/36] fix: do not expand grouping sets again in the partial
 reduce aggregation

PartialReduce was built with the grouping sets of the Partial aggregation, so that queries with
CUBE, ROLLUP or GROUPING SETS returned duplicated groups when distributed.partial_reduce is on.
---
 .../partial_reduce_below_network_shuffles.rs  | 41 +++----------------
 1 file changed, 5 insertions(+), 36 deletions(-)

diff --git a/src/distributed_planner/partial_reduce_below_network_shuffles.rs b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
index b8c16f3..763a427 100644
--- a/src/distributed_planner/partial_reduce_below_network_shuffles.rs
+++ b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
@@ -5,8 +5,7 @@ use datafusion::common::DataFusionError;
 use datafusion::common::tree_node::{Transformed, TreeNode};
 use datafusion::config::ConfigOptions;
 use datafusion::physical_expr::Partitioning;
-use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode, PhysicalGroupBy};
-use datafusion::physical_plan::expressions::Column;
+use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode};
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::{ChildrenPropertiesMode, ExecutionPlan, ReplaceChildrenOptions};
 use std::sync::Arc;
@@ -47,40 +46,10 @@ pub(crate) fn partial_reduce_below_network_shuffles(
             return Ok(Transformed::no(plan));
         }
 
-        // Group-by columns in the Partial output schema appear at indices 0..N-1.
-        let partial_reduce_group_by = {
-            let orig = agg.group_expr();
-            let exprs = orig
-                .expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            let null_exprs = orig
-                .null_expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            PhysicalGroupBy::new(
-                exprs,
-                null_exprs,
-                orig.groups().to_vec(),
-                orig.has_grouping_set(),
-            )
-        };
+        // The Partial output already has one row per group (and grouping id, if there are grouping
+        // sets), so it needs to be grouped the same way as in the Final aggregation: expanding the
+        // grouping sets again would duplicate groups.
+        let partial_reduce_group_by = agg.group_expr().as_final();
 
         // PartialReduce wraps the existing RepartitionExec, running on
         // hash-partitioned data where same keys are already in the same partition.
-- 
2.43.0


From 388fd7030afe0b44011914c88d01b59475370454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 04/36] fix: do not rely on the input ordering across a network
 shuffle

---
 .../inject_network_boundaries.rs              | 45 ++++++++++++++++++-
 src/execution_plans/network_shuffle.rs        | 10 ++++-
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 3414350..c442559 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -14,16 +14,18 @@ use crate::{
 use async_trait::async_trait;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
 use datafusion::common::{HashMap, JoinType, Result, plan_err};
-use datafusion::physical_expr::Partitioning;
+use datafusion::physical_expr::{LexOrdering, OrderingRequirements, Partitioning};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::execution_plan::CardinalityEffect;
 use datafusion::physical_plan::joins::{
     CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode,
 };
 use datafusion::physical_plan::repartition::RepartitionExec;
+use datafusion::physical_plan::sorts::sort::SortExec;
 use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{
-    ChildrenPropertiesMode, ExecutionPlan, PlanProperties, ReplaceChildrenOptions,
+    ChildrenPropertiesMode, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
+    ReplaceChildrenOptions,
 };
 use datafusion::prelude::SessionConfig;
 use std::any::TypeId;
@@ -244,6 +246,7 @@ async fn _inject_network_boundaries(
         )));
     }
     let processed_children = futures::future::try_join_all(futures).await?;
+    let processed_children = restore_input_orderings(&plan, processed_children, nb_ctx)?;
 
     let ev = DesiredTaskCountEvent {
         plan: &plan,
@@ -402,6 +405,44 @@ async fn _inject_network_boundaries(
     }
 }
 
+/// Some network boundaries do not preserve the ordering of their input, as they interleave data from
+/// multiple tasks. If `plan` relied on the ordering of one of those, it needs to be sorted again.
+fn restore_input_orderings(
+    plan: &Arc<dyn ExecutionPlan>,
+    processed_children: Vec<Arc<dyn ExecutionPlan>>,
+    nb_ctx: &InjectNetworkBoundaryContext<'_>,
+) -> Result<Vec<Arc<dyn ExecutionPlan>>> {
+    let required_orderings = plan.required_input_ordering();
+    let maintains_order = plan.maintains_input_order();
+
+    let mut result = Vec::with_capacity(processed_children.len());
+    for (i, processed_child) in processed_children.into_iter().enumerate() {
+        let ordering = match required_orderings.get(i) {
+            Some(Some(OrderingRequirements::Hard(alternatives))) => {
+                Some(LexOrdering::from(alternatives[0].clone()))
+            }
+            // A node that keeps the first rows of an ordered input.
+            _ if plan.fetch().is_some() && maintains_order[i] => {
+                plan.children()[i].output_ordering().cloned()
+            }
+            _ => None,
+        };
+        let Some(ordering) = ordering else {
+            result.push(processed_child);
+            continue;
+        };
+        let eq_properties = processed_child.equivalence_properties();
+        if eq_properties.ordering_satisfy(ordering.clone())? {
+            result.push(processed_child);
+            continue;
+        }
+        let task_count = nb_ctx.task_count(&processed_child)?;
+        let sort = SortExec::new(ordering, processed_child).with_preserve_partitioning(true);
+        result.push(nb_ctx.plan_with_task_count(Arc::new(sort), task_count));
+    }
+    Ok(result)
+}
+
 /// Walks `plan` top-down and records the given `task_count` for every node up until the next
 /// network boundary, scaling leaves and rebuilding intermediate nodes as needed.
 ///
diff --git a/src/execution_plans/network_shuffle.rs b/src/execution_plans/network_shuffle.rs
index fbb4200..b28d4f6 100644
--- a/src/execution_plans/network_shuffle.rs
+++ b/src/execution_plans/network_shuffle.rs
@@ -8,7 +8,7 @@ use datafusion::common::tree_node::TreeNodeRecursion;
 use datafusion::common::{Result, not_impl_err, plan_err};
 use datafusion::error::DataFusionError;
 use datafusion::execution::{SendableRecordBatchStream, TaskContext};
-use datafusion::physical_expr::{Partitioning, PhysicalExpr};
+use datafusion::physical_expr::{EquivalenceProperties, Partitioning, PhysicalExpr};
 use datafusion::physical_expr_common::metrics::MetricsSet;
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
@@ -109,8 +109,14 @@ pub struct NetworkShuffleExec {
 
 impl NetworkShuffleExec {
     pub(crate) fn from_stage(input_stage: Stage, input_properties: Arc<PlanProperties>) -> Self {
+        // Each output partition interleaves the streams of all the input tasks, so the orderings of
+        // the input are not preserved, even if each individual stream is sorted. The rest of the
+        // equivalence properties do not travel to the remote worker that executes this node.
+        let schema = Arc::clone(input_properties.eq_properties.schema());
+        let properties = PlanProperties::clone(&input_properties)
+            .with_eq_properties(EquivalenceProperties::new(schema));
         Self {
-            properties: input_properties,
+            properties: Arc::new(properties),
             worker_connections: WorkerConnectionPool::new(input_stage.task_count()),
             input_stage,
         }
-- 
2.43.0


From 35229383d70a5f7302768882a9c28a22f805967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 05/36] fix: scale the leaves of the head stage for the single
 task it runs in

---
 src/distributed_planner/inject_network_boundaries.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index c442559..be079b6 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -396,8 +396,8 @@ async fn _inject_network_boundaries(
     } else if parent.is_none() {
         // We've just finished walking the head stage's subplan. Run a final propagation so
         // every node in the head stage (which never crossed a stage boundary on the way up)
-        // gets its task count recorded.
-        nb_ctx.propagate_task_count_until_network_boundaries(&plan, task_count)
+        // gets its task count recorded. The head stage always runs in exactly one task.
+        nb_ctx.propagate_task_count_until_network_boundaries(&plan, Maximum(1))
     } else {
         // If this is not the root node, and it's also not a network boundary, then we don't need
         // to do anything else.
-- 
2.43.0


From df20e305f860832e781ec024d478c891dec14050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 06/36] fix: run in one task the stages that rely on their
 input having a single partition

---
 .../inject_network_boundaries.rs              | 47 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index be079b6..c50a727 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -14,7 +14,7 @@ use crate::{
 use async_trait::async_trait;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
 use datafusion::common::{HashMap, JoinType, Result, plan_err};
-use datafusion::physical_expr::{LexOrdering, OrderingRequirements, Partitioning};
+use datafusion::physical_expr::{Distribution, LexOrdering, OrderingRequirements, Partitioning};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::execution_plan::CardinalityEffect;
 use datafusion::physical_plan::joins::{
@@ -321,7 +321,10 @@ async fn _inject_network_boundaries(
         ReplaceChildrenOptions::new(ChildrenPropertiesMode::Recompute),
     )?;
     // Cap the reconciled task count by the configured max-per-stage budget.
-    let task_count = task_count.limit(nb_ctx.max_tasks()?);
+    let mut task_count = task_count.limit(nb_ctx.max_tasks()?);
+    if relies_on_single_partition(&plan) {
+        task_count = Maximum(1);
+    }
 
     // Upon reaching a hash repartition, we need to introduce a network shuffle right above it.
     if let Some(r_exec) = plan.downcast_ref::<RepartitionExec>()
@@ -405,6 +408,46 @@ async fn _inject_network_boundaries(
     }
 }
 
+/// Whether the results of `plan` are only right if all the rows are seen by one single partition.
+///
+/// DataFusion does not need to place a [CoalescePartitionsExec] or a [RepartitionExec] below nodes
+/// like this if their input already has exactly one partition. As there is no node that triggers
+/// the injection of a network boundary, that one partition must not be spread across several tasks.
+fn relies_on_single_partition(plan: &Arc<dyn ExecutionPlan>) -> bool {
+    // The amount of rows retained would be multiplied by the amount of tasks.
+    if plan.fetch().is_some() && plan.output_partitioning().partition_count() == 1 {
+        return true;
+    }
+
+    // The build side of these joins is collected in each task, see [insert_broadcast_execs].
+    let collects_build_side = plan.is::<NestedLoopJoinExec>()
+        || plan.is::<CrossJoinExec>()
+        || plan
+            .downcast_ref::<HashJoinExec>()
+            .is_some_and(|join| join.mode == PartitionMode::CollectLeft);
+
+    let requirements = plan.input_distribution_requirements();
+    let distributions = requirements.per_child_distributions();
+    for (i, (child, distribution)) in plan.children().into_iter().zip(distributions).enumerate() {
+        let partitioning = child.output_partitioning();
+        if partitioning.partition_count() != 1 {
+            continue;
+        }
+        let spreadable = match (distribution, partitioning) {
+            (Distribution::UnspecifiedDistribution, _) => true,
+            (Distribution::SinglePartition, _) => collects_build_side && i == 0,
+            (Distribution::KeyPartitioned(keys), Partitioning::Hash(exprs, _)) => {
+                exprs.iter().all(|expr| keys.contains(expr))
+            }
+            _ => false,
+        };
+        if !spreadable {
+            return true;
+        }
+    }
+    false
+}
+
 /// Some network boundaries do not preserve the ordering of their input, as they interleave data from
 /// multiple tasks. If `plan` relied on the ordering of one of those, it needs to be sorted again.
 fn restore_input_orderings(
-- 
2.43.0


From 46f969dd5a82399743be596caa1fb66265dec072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 07/36] fix: do not extrapolate from a sampled fraction of zero

---
 src/coordinator/prepare_dynamic_plan.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/prepare_dynamic_plan.rs b/src/coordinator/prepare_dynamic_plan.rs
index dff4e28..bc70efd 100644
--- a/src/coordinator/prepare_dynamic_plan.rs
+++ b/src/coordinator/prepare_dynamic_plan.rs
@@ -274,7 +274,9 @@ async fn gather_runtime_statistics(
         // legitimately-empty stages (which would otherwise report `rows_pulled_from_leafs == 0` and
         // make the completion fraction 0, blowing up the `ready / fraction` extrapolation below).
         1.0
-    } else if let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan) {
+    } else if rows_pulled_from_leafs > 0
+        && let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan)
+    {
         // The stage is still producing. Estimate how far along it is from the fraction of the
         // driver-path leaf rows consumed so far.
         (rows_pulled_from_leafs as f32 / estimated_driver_path_leaf_rows as f32).min(1.0)
-- 
2.43.0


From 1b3b84c4085fddb7744522333d9208f4fc75a2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 08/36] fix: saturate the cost estimation of very large inputs

---
 src/distributed_planner/statistics/complexity.rs | 2 +-
 src/distributed_planner/statistics/cost.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distributed_planner/statistics/complexity.rs b/src/distributed_planner/statistics/complexity.rs
index b03c6c7..c0d8f36 100644
--- a/src/distributed_planner/statistics/complexity.rs
+++ b/src/distributed_planner/statistics/complexity.rs
@@ -100,7 +100,7 @@ impl Complexity {
                 // `ilog2` panics on 0, which happens whenever the logged input has zero estimated
                 // bytes/rows (e.g. an empty or fully-pruned relation). Flooring at 1 makes log2
                 // contribute 0 there, i.e. sorting/merging nothing costs nothing.
-                n * m.checked_ilog2().unwrap_or(0) as usize
+                n.saturating_mul(m.checked_ilog2().unwrap_or(0) as usize)
             }
             Self::Plus(n, m) => n
                 .cost(output_stat, input_stats)?
diff --git a/src/distributed_planner/statistics/cost.rs b/src/distributed_planner/statistics/cost.rs
index dbb76e5..fa63690 100644
--- a/src/distributed_planner/statistics/cost.rs
+++ b/src/distributed_planner/statistics/cost.rs
@@ -25,7 +25,7 @@ impl AddAssign for Cost {
 
 fn sum_precision(one: Precision<usize>, other: Precision<usize>) -> Precision<usize> {
     match (one.get_value(), other.get_value()) {
-        (Some(one), Some(other)) => Precision::Inexact(one + other),
+        (Some(one), Some(other)) => Precision::Inexact(one.saturating_add(*other)),
         (Some(one), None) => Precision::Inexact(*one),
         (None, Some(other)) => Precision::Inexact(*other),
         (None, None) => Precision::Absent,
-- 
2.43.0


From 066a693bbd4e162356f444edce5cd03d626bd2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 09/36] fix: do not lose the equivalence properties that the
 plan relies on across network boundaries

---
 src/codec/distributed_codec.rs           | 126 ++++++++++++++++++++++-
 src/execution_plans/network_broadcast.rs |   7 +-
 2 files changed, 127 insertions(+), 6 deletions(-)

diff --git a/src/codec/distributed_codec.rs b/src/codec/distributed_codec.rs
index d91ad89..780dcd7 100644
--- a/src/codec/distributed_codec.rs
+++ b/src/codec/distributed_codec.rs
@@ -14,13 +14,17 @@ use datafusion::arrow::datatypes::SchemaRef;
 use datafusion::common::Result;
 use datafusion::error::DataFusionError;
 use datafusion::execution::TaskContext;
-use datafusion::physical_expr::EquivalenceProperties;
+use datafusion::physical_expr::{AcrossPartitions, ConstExpr, EquivalenceProperties};
 use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
 use datafusion::physical_plan::union::UnionExec;
 use datafusion::physical_plan::{ExecutionPlan, Partitioning, PlanProperties};
 use datafusion::prelude::SessionConfig;
-use datafusion_proto::physical_plan::from_proto::parse_protobuf_partitioning;
-use datafusion_proto::physical_plan::to_proto::serialize_partitioning;
+use datafusion_proto::physical_plan::from_proto::{
+    parse_physical_exprs, parse_physical_sort_exprs, parse_protobuf_partitioning,
+};
+use datafusion_proto::physical_plan::to_proto::{
+    serialize_partitioning, serialize_physical_exprs, serialize_physical_sort_exprs,
+};
 use datafusion_proto::physical_plan::{
     ComposedPhysicalExtensionCodec, PhysicalExtensionCodec, PhysicalPlanDecodeContext,
     PhysicalProtoConverterExtension,
@@ -127,6 +131,7 @@ impl PhysicalExtensionCodec for DistributedCodec {
                 schema,
                 partitioning,
                 input_stage,
+                eq_properties,
             }) => {
                 let schema: Schema = schema
                     .as_ref()
@@ -142,11 +147,20 @@ impl PhysicalExtensionCodec for DistributedCodec {
                 )?
                 .ok_or(proto_error("NetworkCoalesceExec is missing partitioning"))?;
 
-                Ok(Arc::new(new_network_coalesce_tasks_exec(
+                let eq_properties = parse_eq_properties(
+                    eq_properties.unwrap_or_default(),
+                    Arc::new(schema.clone()),
+                    &decode_ctx,
+                    proto_converter,
+                )?;
+
+                let mut node = new_network_coalesce_tasks_exec(
                     partitioning,
                     Arc::new(schema),
                     parse_stage_proto(input_stage, inputs)?,
-                )))
+                );
+                Arc::make_mut(&mut node.properties).set_eq_properties(eq_properties);
+                Ok(Arc::new(node))
             }
             DistributedExecNode::NetworkBroadcast(NetworkBroadcastExecProto {
                 schema,
@@ -296,6 +310,11 @@ impl PhysicalExtensionCodec for DistributedCodec {
                     proto_converter,
                 )?),
                 input_stage: Some(encode_stage_proto(node.input_stage())?),
+                eq_properties: Some(serialize_eq_properties(
+                    node.properties().equivalence_properties(),
+                    self,
+                    proto_converter,
+                )?),
             };
 
             let wrapper = DistributedExecProto {
@@ -495,6 +514,103 @@ pub struct NetworkCoalesceExecProto {
     partitioning: Option<protobuf::Partitioning>,
     #[prost(message, optional, tag = "3")]
     input_stage: Option<StageProto>,
+    #[prost(message, optional, tag = "4")]
+    eq_properties: Option<EquivalencePropertiesProto>,
+}
+
+/// The orderings, equal expressions and constants that the output of a plan node is known to have.
+/// The nodes above were planned relying on them.
+#[derive(Clone, PartialEq, ::prost::Message)]
+pub struct EquivalencePropertiesProto {
+    #[prost(message, repeated, tag = "1")]
+    orderings: Vec<protobuf::PhysicalSortExprNodeCollection>,
+    #[prost(message, repeated, tag = "2")]
+    equal_exprs: Vec<EqualExprsProto>,
+    #[prost(message, repeated, tag = "3")]
+    constants: Vec<ConstantExprProto>,
+}
+
+#[derive(Clone, PartialEq, ::prost::Message)]
+pub struct EqualExprsProto {
+    #[prost(message, repeated, tag = "1")]
+    exprs: Vec<protobuf::PhysicalExprNode>,
+}
+
+#[derive(Clone, PartialEq, ::prost::Message)]
+pub struct ConstantExprProto {
+    #[prost(message, optional, tag = "1")]
+    expr: Option<protobuf::PhysicalExprNode>,
+    /// The value of the expression, if it is known to be the same for all the partitions.
+    #[prost(message, optional, tag = "2")]
+    value: Option<datafusion_proto::protobuf::ScalarValue>,
+}
+
+fn serialize_eq_properties(
+    eq_properties: &EquivalenceProperties,
+    codec: &dyn PhysicalExtensionCodec,
+    proto_converter: &dyn PhysicalProtoConverterExtension,
+) -> Result<EquivalencePropertiesProto> {
+    let mut proto = EquivalencePropertiesProto::default();
+    for ordering in eq_properties.oeq_class().iter() {
+        let sort_exprs = ordering.iter().cloned();
+        proto
+            .orderings
+            .push(protobuf::PhysicalSortExprNodeCollection {
+                physical_sort_expr_nodes: serialize_physical_sort_exprs(
+                    sort_exprs,
+                    codec,
+                    proto_converter,
+                )?,
+            });
+    }
+    for class in eq_properties.eq_group().iter() {
+        proto.equal_exprs.push(EqualExprsProto {
+            exprs: serialize_physical_exprs(class.iter(), codec, proto_converter)?,
+        });
+    }
+    for constant in eq_properties.constants() {
+        let value = match &constant.across_partitions {
+            AcrossPartitions::Uniform(Some(value)) => Some(value.try_into()?),
+            AcrossPartitions::Uniform(None) | AcrossPartitions::Heterogeneous => None,
+        };
+        proto.constants.push(ConstantExprProto {
+            expr: Some(proto_converter.physical_expr_to_proto(&constant.expr, codec)?),
+            value,
+        });
+    }
+    Ok(proto)
+}
+
+fn parse_eq_properties(
+    proto: EquivalencePropertiesProto,
+    schema: SchemaRef,
+    ctx: &PhysicalPlanDecodeContext<'_>,
+    proto_converter: &dyn PhysicalProtoConverterExtension,
+) -> Result<EquivalenceProperties> {
+    let mut eq_properties = EquivalenceProperties::new(Arc::clone(&schema));
+    for EqualExprsProto { exprs } in &proto.equal_exprs {
+        let exprs = parse_physical_exprs(exprs, ctx, &schema, proto_converter)?;
+        for (left, right) in exprs.iter().tuple_windows() {
+            eq_properties.add_equal_conditions(Arc::clone(left), Arc::clone(right))?;
+        }
+    }
+    for ConstantExprProto { expr, value } in &proto.constants {
+        let Some(expr) = expr else {
+            return Err(proto_error("Missing expression in constant"));
+        };
+        let expr = proto_converter.proto_to_physical_expr(expr, &schema, ctx)?;
+        let across_partitions = match value {
+            Some(value) => AcrossPartitions::Uniform(Some(value.try_into()?)),
+            None => AcrossPartitions::Heterogeneous,
+        };
+        eq_properties.add_constants([ConstExpr::new(expr, across_partitions)])?;
+    }
+    for ordering in &proto.orderings {
+        let sort_exprs = &ordering.physical_sort_expr_nodes;
+        let sort_exprs = parse_physical_sort_exprs(sort_exprs, ctx, &schema, proto_converter)?;
+        eq_properties.add_ordering(sort_exprs);
+    }
+    Ok(eq_properties)
 }
 
 fn new_network_coalesce_tasks_exec(
diff --git a/src/execution_plans/network_broadcast.rs b/src/execution_plans/network_broadcast.rs
index 94bca6d..d7de632 100644
--- a/src/execution_plans/network_broadcast.rs
+++ b/src/execution_plans/network_broadcast.rs
@@ -7,7 +7,7 @@ use datafusion::common::tree_node::TreeNodeRecursion;
 use datafusion::common::{Result, not_impl_err, plan_err};
 use datafusion::error::DataFusionError;
 use datafusion::execution::{SendableRecordBatchStream, TaskContext};
-use datafusion::physical_expr::PhysicalExpr;
+use datafusion::physical_expr::{EquivalenceProperties, PhysicalExpr};
 use datafusion::physical_expr_common::metrics::MetricsSet;
 use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
 use datafusion::physical_plan::{
@@ -127,8 +127,13 @@ pub struct NetworkBroadcastExec {
 impl NetworkBroadcastExec {
     pub(crate) fn from_stage(input_stage: Stage, input_properties: Arc<PlanProperties>) -> Self {
         let input_partition_count = input_properties.partitioning.partition_count();
+        // Each output partition interleaves the streams of all the input tasks, so the orderings of
+        // the input are not preserved, even if each individual stream is sorted. The rest of the
+        // equivalence properties do not travel to the remote worker that executes this node.
+        let schema = Arc::clone(input_properties.eq_properties.schema());
         let properties = Arc::new(
             PlanProperties::clone(&input_properties)
+                .with_eq_properties(EquivalenceProperties::new(schema))
                 .with_partitioning(Partitioning::UnknownPartitioning(input_partition_count)),
         );
 
-- 
2.43.0


From 093a06b32f52c2938ddf4c945980f179df10ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 10/36] fix: keep the head of the stages that do not need a
 specific one

---
 src/distributed_planner/network_boundary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/distributed_planner/network_boundary.rs b/src/distributed_planner/network_boundary.rs
index 000d09e..b6c73c7 100644
--- a/src/distributed_planner/network_boundary.rs
+++ b/src/distributed_planner/network_boundary.rs
@@ -84,6 +84,11 @@ impl ProducerHead {
     /// Ensures the head of the provided plan complies with the passed [ProducerHead] definition. This
     /// can be called both during planning and lazily at runtime.
     pub(crate) fn insert(self, input: Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> {
+        // Without a specific head, the plan needs to be executed as is: it's legit for it to start
+        // with one of the nodes below, and its partitioning scheme must be maintained.
+        if matches!(self, ProducerHead::None) {
+            return Ok(input);
+        }
         let input = if let Some(r_exec) = input.downcast_ref::<RepartitionExec>() {
             Arc::clone(r_exec.input())
         } else if let Some(b_exec) = input.downcast_ref::<BroadcastExec>() {
-- 
2.43.0


From 85c12c5e76f6c623c9bd1f7833207237cb16f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:47 +0000
Subject: [PATCH 11/36] fix: follow the partition count of the input stage once
 its leaves are scaled up

---
 src/execution_plans/network_broadcast.rs | 12 +++++++++++-
 src/execution_plans/network_coalesce.rs  | 13 ++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/execution_plans/network_broadcast.rs b/src/execution_plans/network_broadcast.rs
index d7de632..a8808dc 100644
--- a/src/execution_plans/network_broadcast.rs
+++ b/src/execution_plans/network_broadcast.rs
@@ -236,7 +236,17 @@ impl ExecutionPlan for NetworkBroadcastExec {
         let mut self_clone = self.as_ref().clone();
         match &mut self_clone.input_stage {
             Stage::Local(local) => {
-                local.plan = require_one_child(children)?;
+                let child = require_one_child(children)?;
+                // Scaling up the leaf nodes of the input stage might have changed its partition
+                // count.
+                if let Some(broadcast) = child.downcast_ref::<BroadcastExec>() {
+                    let partitions = broadcast.input_partition_count();
+                    self_clone.properties = Arc::new(
+                        PlanProperties::clone(&self_clone.properties)
+                            .with_partitioning(Partitioning::UnknownPartitioning(partitions)),
+                    );
+                }
+                local.plan = child;
             }
             Stage::Remote(_) => {
                 if !children.is_empty() {
diff --git a/src/execution_plans/network_coalesce.rs b/src/execution_plans/network_coalesce.rs
index 4cbaec0..574d3dd 100644
--- a/src/execution_plans/network_coalesce.rs
+++ b/src/execution_plans/network_coalesce.rs
@@ -253,7 +253,18 @@ impl ExecutionPlan for NetworkCoalesceExec {
         let mut self_clone = self.as_ref().clone();
         match &mut self_clone.input_stage {
             Stage::Local(local) => {
-                local.plan = require_one_child(children)?;
+                let child = require_one_child(children)?;
+                let prev_partitions = local.plan.properties().partitioning.partition_count();
+                let partitions = child.properties().partitioning.partition_count();
+                // Scaling up the leaf nodes of the input stage might have changed its partition
+                // count.
+                if partitions != prev_partitions {
+                    self_clone.properties =
+                        scale_partitioning_props(&self_clone.properties, |p| {
+                            p / prev_partitions.max(1) * partitions
+                        })?;
+                }
+                local.plan = child;
             }
             Stage::Remote(_) => {
                 if !children.is_empty() {
-- 
2.43.0


From 0deb4bd7b12eafed42eaac8e20465bd41ccdb9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:47 +0000
Subject: [PATCH 12/36] fix: do not read broadcast partitions once per consumer
 in each consumer

---
 src/execution_plans/network_broadcast.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/execution_plans/network_broadcast.rs b/src/execution_plans/network_broadcast.rs
index a8808dc..871fa22 100644
--- a/src/execution_plans/network_broadcast.rs
+++ b/src/execution_plans/network_broadcast.rs
@@ -147,11 +147,13 @@ impl NetworkBroadcastExec {
     /// Creates a new [NetworkBroadcastExec] fed by the provided [BroadcastExec]. The input plan
     /// will be executed in a remote worker in `producer_tasks` number of tasks.
     pub fn try_new(input: Arc<dyn ExecutionPlan>, producer_tasks: usize) -> Result<Self> {
-        if !input.is::<BroadcastExec>() {
+        let Some(broadcast) = input.downcast_ref::<BroadcastExec>() else {
             return plan_err!("The input of a NetworkBroadcastExec can only be a BroadcastExec");
-        }
+        };
 
-        let input_properties = Arc::clone(input.properties());
+        // Each consumer task reads the partitions that the BroadcastExec has as input once,
+        // independently of the consumer tasks that the BroadcastExec was built for.
+        let input_properties = Arc::clone(broadcast.input().properties());
         Ok(Self::from_stage(
             Stage::Local(LocalStage {
                 // At this point, query_id and num are just placeholders that will be filled by
-- 
2.43.0


From 1be1082e2512f51b1aee24828d5d1d966a44926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:27 +0000
Subject: [PATCH 13/36] fix: coalesce the partitions of the custom plans with
 more than one of them

---
 src/distributed_planner/distributed_query_planner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/distributed_planner/distributed_query_planner.rs b/src/distributed_planner/distributed_query_planner.rs
index d312b32..02c16d3 100644
--- a/src/distributed_planner/distributed_query_planner.rs
+++ b/src/distributed_planner/distributed_query_planner.rs
@@ -130,7 +130,12 @@ fn create_distributed_plan(
             if !plan.exists(|plan| Ok(plan.is_network_boundary()))? {
                 return Ok(plan);
             }
-            let plan = push_fetch_into_network_coalesce(plan)?;
+            let mut plan = push_fetch_into_network_coalesce(plan)?;
+            // The head stage is expected to have one partition, regardless of how many of them the
+            // plan that contains the boundaries has.
+            if plan.output_partitioning().partition_count() > 1 {
+                plan = Arc::new(CoalescePartitionsExec::new(plan));
+            }
             return Ok(Arc::new(
                 DistributedExec::new(plan).with_metrics_collection(d_cfg.collect_metrics),
             ));
-- 
2.43.0


From 373f8d6d72296e8b3bc4668b91b7d17434aae15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 14/36] fix: only push into network coalesces the fetch of the
 nodes that limit their input

---
 .../push_fetch_into_network_coalesce.rs           | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/distributed_planner/push_fetch_into_network_coalesce.rs b/src/distributed_planner/push_fetch_into_network_coalesce.rs
index a9130b3..07f4d3e 100644
--- a/src/distributed_planner/push_fetch_into_network_coalesce.rs
+++ b/src/distributed_planner/push_fetch_into_network_coalesce.rs
@@ -2,7 +2,9 @@ use std::sync::Arc;
 
 use datafusion::common::Result;
 use datafusion::common::tree_node::{Transformed, TreeNode};
-use datafusion::physical_plan::limit::GlobalLimitExec;
+use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
+use datafusion::physical_plan::limit::{GlobalLimitExec, LocalLimitExec};
+use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{ChildrenPropertiesMode, ExecutionPlan, ReplaceChildrenOptions};
 
 use crate::NetworkCoalesceExec;
@@ -101,7 +103,16 @@ fn fetch_required_from_child(plan: &Arc<dyn ExecutionPlan>) -> Option<usize> {
             .and_then(|fetch| fetch.checked_add(global_limit.skip()));
     }
 
-    plan.fetch()
+    // The fetch of other nodes is not a bound on the rows that they need from their input: a TopK
+    // sort for example needs to look at all of them.
+    if plan.is::<LocalLimitExec>()
+        || plan.is::<CoalescePartitionsExec>()
+        || plan.is::<SortPreservingMergeExec>()
+    {
+        return plan.fetch();
+    }
+
+    None
 }
 
 #[cfg(test)]
-- 
2.43.0


From aeebeec0112db7a80d0565b6504c256d604d4c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 15/36] fix: do not divide by zero when bytes per partition is
 set to 0

---
 src/events/defaults/file_scan_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index f81bd1e..00a0b08 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -27,7 +27,7 @@ pub(crate) fn file_scan_config_desired_task_count(
     }
 
     let task_count = total_bytes
-        .div_ceil(d_cfg.file_scan_config_bytes_per_partition)
+        .div_ceil(d_cfg.file_scan_config_bytes_per_partition.max(1))
         .div_ceil(cfg.target_partitions());
 
     Some(Ok(DesiredTaskCountEventResponse::desired(task_count)))
-- 
2.43.0


From 32d0cb0add200b60886133dfff1298fa067c8cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 16/36] fix: keep file groups whole when distributing a scan
 partitioned by its file groups

---
 src/events/defaults/file_scan_config.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index 00a0b08..47092cc 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -7,7 +7,7 @@ use crate::execution_plans::DistributedLeafExec;
 use datafusion::catalog::memory::DataSourceExec;
 use datafusion::datasource::physical_plan::{FileGroup, FileGroupPartitioner, FileScanConfig};
 use datafusion::error::Result;
-use datafusion::physical_plan::ExecutionPlanProperties;
+use datafusion::physical_plan::{ExecutionPlanProperties, Partitioning};
 use std::sync::Arc;
 
 pub(crate) fn file_scan_config_desired_task_count(
@@ -40,7 +40,18 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
     let file_scan = dse.data_source().downcast_ref::<FileScanConfig>()?;
     let partition_count = ev.plan.output_partitioning().partition_count();
 
-    let rebalanced = if file_scan.output_partitioning.is_some() {
+    let rebalanced = if matches!(
+        ev.plan.output_partitioning(),
+        Partitioning::Hash(..) | Partitioning::Range(_)
+    ) {
+        // The nodes above rely on each file group holding all the rows with the same partitioning
+        // values, so the groups can be dealt across tasks, but their files cannot be separated.
+        let file_groups = file_scan.file_groups.clone();
+        rebalance_round_robin(file_groups, partition_count * ev.task_count)
+            .into_iter()
+            .map(|groups| groups.iter().flat_map(|g| g.iter().cloned()).collect())
+            .collect::<Vec<_>>()
+    } else if file_scan.output_partitioning.is_some() {
         let all_partitioned_files = file_scan
             .file_groups
             .iter()
-- 
2.43.0


From 83b61b639fbcf15fe04ea97c3b5782be3658860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 17/36] fix: do not split files in byte ranges if the file
 source does not support it

---
 src/events/defaults/file_scan_config.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index 47092cc..2800b6c 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -5,7 +5,7 @@ use crate::events::{
 };
 use crate::execution_plans::DistributedLeafExec;
 use datafusion::catalog::memory::DataSourceExec;
-use datafusion::datasource::physical_plan::{FileGroup, FileGroupPartitioner, FileScanConfig};
+use datafusion::datasource::physical_plan::{FileGroup, FileScanConfig};
 use datafusion::error::Result;
 use datafusion::physical_plan::{ExecutionPlanProperties, Partitioning};
 use std::sync::Arc;
@@ -62,14 +62,17 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
             .map(FileGroup::new)
             .collect::<Vec<_>>()
     } else {
-        FileGroupPartitioner::new()
-            .with_target_partitions(partition_count * ev.task_count)
-            .with_repartition_file_min_size(0)
-            .with_preserve_order_within_groups(!file_scan.output_ordering.is_empty())
-            .repartition_file_groups(&file_scan.file_groups)
-            .unwrap_or_else(|| file_scan.file_groups.clone())
-            .into_iter()
-            .collect()
+        // Delegate to the file source, as not every source can be split in byte ranges.
+        match file_scan.file_source.repartitioned(
+            partition_count * ev.task_count,
+            0,
+            file_scan.output_ordering.first().cloned(),
+            file_scan,
+        ) {
+            Ok(Some(repartitioned)) => repartitioned.file_groups,
+            Ok(None) => file_scan.file_groups.clone(),
+            Err(e) => return Some(Err(e)),
+        }
     };
 
     let mut file_scan_template = file_scan.clone();
-- 
2.43.0


From 860b43d8892cce278648567a1521a944c6f367d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 18/36] fix: give every task the same number of file groups

---
 src/events/defaults/file_scan_config.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index 2800b6c..93fb36d 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -40,7 +40,7 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
     let file_scan = dse.data_source().downcast_ref::<FileScanConfig>()?;
     let partition_count = ev.plan.output_partitioning().partition_count();
 
-    let rebalanced = if matches!(
+    let mut rebalanced = if matches!(
         ev.plan.output_partitioning(),
         Partitioning::Hash(..) | Partitioning::Range(_)
     ) {
@@ -75,6 +75,10 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
         }
     };
 
+    // All the tasks must end up with the same number of groups, and with at least one.
+    let groups_per_task = rebalanced.len().div_ceil(ev.task_count).max(1);
+    rebalanced.resize_with(groups_per_task * ev.task_count, FileGroup::default);
+
     let mut file_scan_template = file_scan.clone();
     file_scan_template.file_groups.clear();
     let mut file_scans = vec![file_scan_template; ev.task_count];
-- 
2.43.0


From 0129c4458a663bcb4aa10fe6de1d4ba2f1e55dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 19/36] fix: report panics of a task to its consumers as errors

A panic while polling the stream of a partition killed the tokio task that was
polling it, and dropping its end of the channel looked like a successful end of
the stream to the consumers: rows silently went missing.
---
 src/common/mod.rs                |  2 ++
 src/common/panic.rs              | 13 +++++++++++++
 src/execution_plans/broadcast.rs | 10 ++++++++--
 src/worker/impl_execute_task.rs  |  9 +++++++++
 4 files changed, 32 insertions(+), 2 deletions(-)
 create mode 100644 src/common/panic.rs

diff --git a/src/common/mod.rs b/src/common/mod.rs
index 7dfd3a9..6e56dd5 100644
--- a/src/common/mod.rs
+++ b/src/common/mod.rs
@@ -1,6 +1,7 @@
 mod children_helpers;
 mod maybe_encoded;
 mod once_lock;
+mod panic;
 mod recursion;
 mod task_context_helpers;
 mod time;
@@ -10,6 +11,7 @@ mod vec;
 pub(crate) use children_helpers::require_one_child;
 pub use maybe_encoded::MaybeEncoded;
 pub(crate) use once_lock::OnceLockResult;
+pub(crate) use panic::panic_to_datafusion_error;
 pub(crate) use recursion::TreeNodeExt;
 pub(crate) use task_context_helpers::task_ctx_with_extension;
 pub(crate) use time::now_ns;
diff --git a/src/common/panic.rs b/src/common/panic.rs
new file mode 100644
index 0000000..fe60e43
--- /dev/null
+++ b/src/common/panic.rs
@@ -0,0 +1,13 @@
+use datafusion::common::exec_datafusion_err;
+use datafusion::error::DataFusionError;
+use std::any::Any;
+
+/// Converts the payload of a panic into a [DataFusionError].
+pub(crate) fn panic_to_datafusion_error(panic: &(dyn Any + Send)) -> DataFusionError {
+    let msg = panic
+        .downcast_ref::<&str>()
+        .copied()
+        .or_else(|| panic.downcast_ref::<String>().map(String::as_str))
+        .unwrap_or("unknown cause");
+    exec_datafusion_err!("Panicked while executing the plan: {msg}")
+}
diff --git a/src/execution_plans/broadcast.rs b/src/execution_plans/broadcast.rs
index 4d06d4d..d98d6be 100644
--- a/src/execution_plans/broadcast.rs
+++ b/src/execution_plans/broadcast.rs
@@ -1,4 +1,4 @@
-use crate::common::{OnceLockResult, require_one_child};
+use crate::common::{OnceLockResult, panic_to_datafusion_error, require_one_child};
 use crossbeam_queue::SegQueue;
 use datafusion::arrow::datatypes::SchemaRef;
 use datafusion::common::runtime::SpawnedTask;
@@ -13,6 +13,7 @@ use datafusion::physical_plan::{
 };
 use futures::{Stream, StreamExt};
 use std::fmt::Formatter;
+use std::panic::AssertUnwindSafe;
 use std::pin::Pin;
 use std::sync::{Arc, Mutex, OnceLock};
 use std::task::{Context, Poll};
@@ -178,7 +179,12 @@ impl ExecutionPlan for BroadcastExec {
             }
 
             let pool = Arc::clone(context.memory_pool());
-            let mut stream = input.execute(real_partition, context).map_err(Arc::new)?;
+            // A panic in the input must be propagated to the consumers as an error. Otherwise, they
+            // would see the queue being closed as a successful EOS.
+            let stream = input.execute(real_partition, context).map_err(Arc::new)?;
+            let mut stream = AssertUnwindSafe(stream)
+                .catch_unwind()
+                .map(|msg| msg.unwrap_or_else(|panic| Err(panic_to_datafusion_error(&*panic))));
             let task = SpawnedTask::spawn(async move {
                 let mem_consumer = MemoryConsumer::new(format!("BroadcastExec[{real_partition}]"));
 
diff --git a/src/worker/impl_execute_task.rs b/src/worker/impl_execute_task.rs
index 1c62fc1..3768b7c 100644
--- a/src/worker/impl_execute_task.rs
+++ b/src/worker/impl_execute_task.rs
@@ -1,10 +1,13 @@
 use crate::ExecuteTaskRequest;
+use crate::common::panic_to_datafusion_error;
 use crate::worker::worker_service::Worker;
 use datafusion::common::exec_datafusion_err;
 use datafusion::common::{Result, exec_err};
 use datafusion::error::DataFusionError;
 use datafusion::execution::{SendableRecordBatchStream, TaskContext};
 use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
+use futures::StreamExt;
+use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
 use std::time::Duration;
 
@@ -53,6 +56,12 @@ impl Worker {
             let stream = plan.execute(partition, Arc::clone(&task_ctx))?;
             let stream_schema = plan.schema();
 
+            // A panic while polling the stream must reach the consumer as an error. Otherwise, the
+            // task polling it would just go away, and the consumer would see a successful EOS.
+            let stream = AssertUnwindSafe(stream)
+                .catch_unwind()
+                .map(|msg| msg.unwrap_or_else(|panic| Err(panic_to_datafusion_error(&*panic))));
+
             streams.push(Box::pin(RecordBatchStreamAdapter::new(stream_schema, stream)) as _);
         }
         Ok((streams, task_ctx))
-- 
2.43.0


From 12a673e7c1fdff42beac1fe13beee8f1d9e409cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 20/36] fix: report the failure of sending a plan as soon as it
 happens

If a plan could not be sent to a worker, the stages reading from it waited 10s
for it and failed with a timeout that says nothing about the original error.
---
 src/coordinator/distributed.rs       | 47 +++++++++++++++++-----------
 src/coordinator/query_coordinator.rs | 20 ++++++++++++
 2 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/src/coordinator/distributed.rs b/src/coordinator/distributed.rs
index 1e5fc79..b85cfe9 100644
--- a/src/coordinator/distributed.rs
+++ b/src/coordinator/distributed.rs
@@ -7,7 +7,7 @@ use crate::distributed_planner::NetworkBoundaryExt;
 use crate::{DistributedConfig, TaskKey};
 use datafusion::common::internal_datafusion_err;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
-use datafusion::common::{Result, exec_err};
+use datafusion::common::{DataFusionError, Result, exec_err};
 use datafusion::execution::{SendableRecordBatchStream, TaskContext};
 use datafusion::physical_expr::PhysicalExpr;
 use datafusion::physical_expr_common::metrics::MetricsSet;
@@ -217,25 +217,36 @@ impl ExecutionPlan for DistributedExec {
             //    channel is closed.
             let guard = query_coordinator.end_query_guard();
 
-            let d_cfg = DistributedConfig::from_config_options(context.session_config().options())?;
-            let result = match d_cfg.dynamic_task_count {
-                true => prepare_dynamic_plan(&query_coordinator, &base_plan).await?,
-                false => prepare_static_plan(&query_coordinator, &base_plan)?,
-            };
+            let run = async {
+                let d_cfg =
+                    DistributedConfig::from_config_options(context.session_config().options())?;
+                let result = match d_cfg.dynamic_task_count {
+                    true => prepare_dynamic_plan(&query_coordinator, &base_plan).await?,
+                    false => prepare_static_plan(&query_coordinator, &base_plan)?,
+                };
 
-            plan_for_viz
-                .lock()
-                .expect("poisoned lock")
-                .replace(result.plan_for_viz);
-            head_stage
-                .lock()
-                .expect("poisoned lock")
-                .replace(Arc::clone(&result.head_stage));
-            let mut stream = result.head_stage.execute(partition, context)?;
-            while let Some(msg) = stream.next().await {
-                if tx.send(msg).await.is_err() {
-                    break; // channel closed
+                plan_for_viz
+                    .lock()
+                    .expect("poisoned lock")
+                    .replace(result.plan_for_viz);
+                head_stage
+                    .lock()
+                    .expect("poisoned lock")
+                    .replace(Arc::clone(&result.head_stage));
+                let mut stream = result.head_stage.execute(partition, context)?;
+                while let Some(msg) = stream.next().await {
+                    if tx.send(msg).await.is_err() {
+                        break; // channel closed
+                    }
                 }
+                Ok::<_, DataFusionError>(())
+            };
+            // If a background task fails (e.g. a plan could not be sent to a worker), report that
+            // failure right away, rather than waiting for the stages that depend on it to fail.
+            tokio::select! {
+                biased;
+                result = run => result?,
+                err = query_coordinator.pending_task_error() => return Err(err),
             }
             drop(tx);
             drop(guard);
diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 2f9c99f..bdd9773 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -27,6 +27,7 @@ use datafusion::prelude::SessionConfig;
 use futures::{Stream, StreamExt, TryStreamExt};
 use std::ops::DerefMut;
 use std::sync::{Arc, Mutex};
+use std::task::Poll;
 use tokio::sync::Notify;
 use tokio::sync::mpsc::{UnboundedReceiver, UnboundedSender};
 use tokio_stream::wrappers::UnboundedReceiverStream;
@@ -97,6 +98,25 @@ impl QueryCoordinator {
         NotifyGuard(Arc::clone(&self.end_stream_notifier))
     }
 
+    /// Waits until any of the background tasks fails, returning its error. If none of them fails,
+    /// this method never resolves.
+    pub(super) async fn pending_task_error(&self) -> DataFusionError {
+        futures::future::poll_fn(|cx| {
+            let mut join_set = self.join_set.lock().unwrap();
+            loop {
+                match join_set.poll_join_next(cx) {
+                    Poll::Ready(Some(Ok(Ok(())))) => continue,
+                    Poll::Ready(Some(Ok(Err(err)))) => return Poll::Ready(err),
+                    Poll::Ready(Some(Err(err))) => {
+                        return Poll::Ready(DataFusionError::ExecutionJoin(Box::new(err)));
+                    }
+                    Poll::Ready(None) | Poll::Pending => return Poll::Pending,
+                }
+            }
+        })
+        .await
+    }
+
     /// Blocks until all background tasks have finished (e.g., sending WorkUnit feeds, or collecting
     /// metrics)
     pub(super) async fn drain_pending_tasks(self) -> Result<()> {
-- 
2.43.0


From 0a12b8c0828efc14f847c457508ae13f85af1e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 21/36] fix: decode ArrowError::AvroError when it comes from a
 worker

Its tag was not listed in the tags of the oneof, so prost did not decode it.
---
 src/protocol/grpc/errors/arrow_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/grpc/errors/arrow_error.rs b/src/protocol/grpc/errors/arrow_error.rs
index b78a950..01e4904 100644
--- a/src/protocol/grpc/errors/arrow_error.rs
+++ b/src/protocol/grpc/errors/arrow_error.rs
@@ -8,7 +8,7 @@ pub struct ArrowErrorProto {
     pub ctx: Option<String>,
     #[prost(
         oneof = "ArrowErrorInnerProto",
-        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"
+        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21"
     )]
     pub inner: Option<ArrowErrorInnerProto>,
 }
-- 
2.43.0


From db75d599686ad76cab1681d9a7e79a9c6785f427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 22/36] fix: keep what was not implemented in object_store
 errors sent over the wire

---
 src/protocol/grpc/errors/objectstore_error.rs | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/protocol/grpc/errors/objectstore_error.rs b/src/protocol/grpc/errors/objectstore_error.rs
index 933cf16..dc0a5ba 100644
--- a/src/protocol/grpc/errors/objectstore_error.rs
+++ b/src/protocol/grpc/errors/objectstore_error.rs
@@ -26,7 +26,7 @@ pub enum ObjectStoreErrorInnerProto {
     #[prost(message, tag = "8")]
     NotModified(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "9")]
-    NotImplemented(bool),
+    NotImplemented(ObjectStoreNotImplementedErrorProto),
     #[prost(message, tag = "10")]
     PermissionDenied(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "11")]
@@ -57,6 +57,15 @@ pub struct ObjectStoreSourcePathErrorProto {
     source: String,
 }
 
+// Tag 1 was used in the past.
+#[derive(Clone, PartialEq, ::prost::Message)]
+pub struct ObjectStoreNotImplementedErrorProto {
+    #[prost(string, tag = "2")]
+    operation: String,
+    #[prost(string, tag = "3")]
+    implementer: String,
+}
+
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct ObjectStoreConfigurationKeyErrorProto {
     #[prost(string, tag = "1")]
@@ -130,10 +139,15 @@ impl ObjectStoreErrorProto {
                 )),
             },
             object_store::Error::NotImplemented {
-                operation: _,
-                implementer: _,
+                operation,
+                implementer,
             } => ObjectStoreErrorProto {
-                inner: Some(ObjectStoreErrorInnerProto::NotImplemented(true)),
+                inner: Some(ObjectStoreErrorInnerProto::NotImplemented(
+                    ObjectStoreNotImplementedErrorProto {
+                        operation: operation.clone(),
+                        implementer: implementer.clone(),
+                    },
+                )),
             },
             object_store::Error::PermissionDenied { path, source } => ObjectStoreErrorProto {
                 inner: Some(ObjectStoreErrorInnerProto::PermissionDenied(
@@ -213,10 +227,10 @@ impl ObjectStoreErrorProto {
                 path: msg.path.clone(),
                 source: msg.source.clone().into(),
             },
-            ObjectStoreErrorInnerProto::NotImplemented(_msg) => {
+            ObjectStoreErrorInnerProto::NotImplemented(msg) => {
                 object_store::Error::NotImplemented {
-                    operation: "unknown_operation".to_string(),
-                    implementer: "unknown_implementer".to_string(),
+                    operation: msg.operation.clone(),
+                    implementer: msg.implementer.clone(),
                 }
             }
             ObjectStoreErrorInnerProto::PermissionDenied(msg) => {
-- 
2.43.0


From 5d9c65dec4c380bf115bb8e3de7282233b145058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 23/36] fix: shorten errors that do not fit in the trailers of
 a gRPC response

They arrived at the consumer as "DataFusionError proto message is empty".
---
 src/protocol/grpc/errors/datafusion_error.rs | 64 ++++++++++++++++++++
 src/protocol/grpc/errors/mod.rs              | 10 ++-
 2 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/src/protocol/grpc/errors/datafusion_error.rs b/src/protocol/grpc/errors/datafusion_error.rs
index 23646d4..f198266 100644
--- a/src/protocol/grpc/errors/datafusion_error.rs
+++ b/src/protocol/grpc/errors/datafusion_error.rs
@@ -7,6 +7,7 @@ use super::schema_error::SchemaErrorProto;
 use datafusion::common::{DataFusionError, Diagnostic};
 #[cfg(feature = "sql")]
 use datafusion::logical_expr::sqlparser::parser::ParserError;
+use prost::Message;
 use std::error::Error;
 use std::sync::Arc;
 
@@ -182,6 +183,58 @@ impl DataFusionErrorProto {
         }
     }
 
+    /// Cuts the messages in this error so that it fits in roughly `max_len` bytes once encoded.
+    pub(super) fn shorten(&mut self, max_len: usize) {
+        if self.encoded_len() <= max_len {
+            return;
+        }
+        let Some(inner) = &mut self.inner else {
+            return;
+        };
+        match inner {
+            DataFusionErrorInnerProto::NotImplemented(msg)
+            | DataFusionErrorInnerProto::Internal(msg)
+            | DataFusionErrorInnerProto::Plan(msg)
+            | DataFusionErrorInnerProto::Configuration(msg)
+            | DataFusionErrorInnerProto::Execution(msg)
+            | DataFusionErrorInnerProto::ExecutionJoin(msg)
+            | DataFusionErrorInnerProto::ResourceExhausted(msg)
+            | DataFusionErrorInnerProto::External(msg)
+            | DataFusionErrorInnerProto::Substrait(msg) => shorten_msg(msg, max_len),
+            DataFusionErrorInnerProto::Context(err) => {
+                shorten_msg(&mut err.ctx, max_len / 2);
+                if let Some(inner) = &mut err.err {
+                    inner.shorten(max_len.saturating_sub(err.ctx.len()));
+                }
+            }
+            DataFusionErrorInnerProto::Diagnostic(err) | DataFusionErrorInnerProto::Shared(err) => {
+                err.shorten(max_len)
+            }
+            DataFusionErrorInnerProto::Collection(errs) => {
+                let mut remaining = max_len;
+                errs.errs.retain_mut(|err| {
+                    if remaining == 0 {
+                        return false;
+                    }
+                    err.shorten(remaining);
+                    remaining = remaining.saturating_sub(err.encoded_len() + 4);
+                    true
+                });
+            }
+            // The remaining ones wrap errors from other libraries, so just keep their message.
+            DataFusionErrorInnerProto::ArrowError(_)
+            | DataFusionErrorInnerProto::ParquetError(_)
+            | DataFusionErrorInnerProto::ObjectStoreError(_)
+            | DataFusionErrorInnerProto::IoError(_)
+            | DataFusionErrorInnerProto::SQL(_)
+            | DataFusionErrorInnerProto::Schema(_) => {
+                let mut msg = self.to_datafusion_err().to_string();
+                shorten_msg(&mut msg, max_len);
+                self.inner = Some(DataFusionErrorInnerProto::External(msg));
+            }
+        }
+    }
+
     pub fn to_datafusion_err(&self) -> DataFusionError {
         let Some(ref inner) = self.inner else {
             return DataFusionError::Internal("DataFusionError proto message is empty".to_string());
@@ -285,6 +338,17 @@ impl DataFusionErrorProto {
     }
 }
 
+fn shorten_msg(msg: &mut String, max_len: usize) {
+    if msg.len() > max_len {
+        let mut end = max_len;
+        while !msg.is_char_boundary(end) {
+            end -= 1;
+        }
+        msg.truncate(end);
+        msg.push_str("...");
+    }
+}
+
 #[derive(Clone, Debug)]
 pub struct DistributedDataFusionGenericError {
     pub message: String,
diff --git a/src/protocol/grpc/errors/mod.rs b/src/protocol/grpc/errors/mod.rs
index b940d7c..d622bc1 100644
--- a/src/protocol/grpc/errors/mod.rs
+++ b/src/protocol/grpc/errors/mod.rs
@@ -16,11 +16,19 @@ mod parquet_error;
 mod parser_error;
 mod schema_error;
 
+/// Errors travel base64 encoded in the trailers of the gRPC response, and clients do not accept more
+/// than 16 KiB of them by default. Anything bigger than that arrives as an empty error, so messages
+/// are cut for not going over this limit.
+const MAX_ENCODED_ERROR_LEN: usize = 8 * 1024;
+
 /// Encodes a [DataFusionError] into a [tonic::Status] error. The produced error is suitable
 /// to be sent over the wire and decoded by the receiving end, recovering the original
 /// [DataFusionError] across a network boundary with [tonic_status_to_datafusion_error].
 pub fn datafusion_error_to_tonic_status(err: impl Borrow<DataFusionError>) -> tonic::Status {
-    let err = DataFusionErrorProto::from_datafusion_error(err.borrow());
+    let mut err = DataFusionErrorProto::from_datafusion_error(err.borrow());
+    if err.encoded_len() > MAX_ENCODED_ERROR_LEN {
+        err.shorten(MAX_ENCODED_ERROR_LEN);
+    }
     let err = err.encode_to_vec();
 
     tonic::Status::with_details(tonic::Code::Internal, "DataFusionError", err.into())
-- 
2.43.0


From f9758316ba820852edc719dc781d0a0885465807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 24/36] fix: do not take the consumer of a worker connection
 for starving with a message queued for it

---
 src/protocol/grpc/worker_client.rs | 45 ++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index 5c61241..e3534b3 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -140,13 +140,15 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         let mem_available_notify = Arc::new(Notify::new());
         let mem_available_notify_for_task = Arc::clone(&mem_available_notify);
 
-        // Per partition flag telling whether its consumer is waiting for data on an empty queue.
-        // All the partitions are multiplexed over one gRPC stream, so the data a consumer waits for
-        // can only arrive by pulling past the messages of its siblings.
-        let starving = (0..target_partition_range.len())
-            .map(|_| AtomicBool::new(false))
+        // Per partition, whether its consumer is waiting for data and how many messages it has queued.
+        // All the partitions are multiplexed over one gRPC stream, so the data that a consumer waiting
+        // on an empty queue needs can only arrive by pulling past the messages of its siblings. The
+        // messages are counted before they are sent, as a consumer that found its queue empty might
+        // only get to say that it waits after the next message was queued for it.
+        let demand = (0..target_partition_range.len())
+            .map(|_| PartitionDemand::default())
             .collect::<Arc<[_]>>();
-        let starving_for_task = Arc::clone(&starving);
+        let demand_for_task = Arc::clone(&demand);
 
         let first_poll_notify = Arc::new(Notify::new());
         let first_poll_notify_for_task = Arc::clone(&first_poll_notify);
@@ -201,7 +203,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // waits on an empty partition: it might be the one everybody else depends on (e.g.
                 // a sort-preserving merge waiting for its slowest input), so pausing would deadlock.
                 while memory_reservation.size() >= buffer_budget_bytes
-                    && !starving_for_task.iter().any(|v| v.load(Ordering::SeqCst))
+                    && !demand_for_task.iter().any(PartitionDemand::is_starving)
                 {
                     tokio::select! {
                         biased;
@@ -274,7 +276,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                     max_mem_used.set(curr_max_mem);
                 }
 
-                starving_for_task[sender_i].store(false, Ordering::SeqCst);
+                demand_for_task[sender_i].queued.fetch_add(1, Ordering::SeqCst);
                 if o_tx.send(Ok((flight_data, flight_metadata))).is_err() {
                     // The receiver for this partition was dropped (e.g. a hash join partition
                     // completed early without consuming its probe side). Don't exit: other
@@ -295,13 +297,17 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
             let cancel_token = cancel_token.clone();
 
             let first_poll_notify = Arc::clone(&first_poll_notify);
-            let starving_for_stream = Arc::clone(&starving);
+            let demand_for_stream = Arc::clone(&demand);
             let mem_available_notify_for_stream = Arc::clone(&mem_available_notify);
             let stream = async move {
                 first_poll_notify.notify_one();
                 futures::stream::poll_fn(move |cx| {
                     let poll = partition_receiver.poll_recv(cx);
-                    starving_for_stream[i].store(poll.is_pending(), Ordering::SeqCst);
+                    let demand = &demand_for_stream[i];
+                    demand.waiting.store(poll.is_pending(), Ordering::SeqCst);
+                    if let Poll::Ready(Some(Ok(_))) = &poll {
+                        demand.queued.fetch_sub(1, Ordering::SeqCst);
+                    }
                     if poll.is_pending() {
                         // Wake the demux task in case it is blocked on the byte budget.
                         mem_available_notify_for_stream.notify_one();
@@ -327,10 +333,10 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
 
             // When the stream is dropped, cancel the background task to ensure prompt cleanup.
             let not_consumed_streams = Arc::clone(&not_consumed_streams);
-            let starving = Arc::clone(&starving);
+            let demand = Arc::clone(&demand);
             result.push(
                 on_drop_stream(stream, move || {
-                    starving[i].store(false, Ordering::SeqCst);
+                    demand[i].waiting.store(false, Ordering::SeqCst);
                     let remaining_streams = not_consumed_streams.fetch_sub(1, Ordering::SeqCst) - 1;
                     if remaining_streams == 0 {
                         cancel_token.cancel();
@@ -571,6 +577,21 @@ fn missing(field: &'static str) -> DataFusionError {
     DataFusionError::Internal(format!("Missing field '{field}'"))
 }
 
+/// Demand that the consumer of one of the partitions of a connection has for data.
+#[derive(Default)]
+struct PartitionDemand {
+    /// Whether the last time that the consumer asked for data there was none.
+    waiting: AtomicBool,
+    /// Amount of messages sent to the consumer that it has not received yet.
+    queued: AtomicUsize,
+}
+
+impl PartitionDemand {
+    fn is_starving(&self) -> bool {
+        self.waiting.load(Ordering::SeqCst) && self.queued.load(Ordering::SeqCst) == 0
+    }
+}
+
 fn fanout(o_txs: &[UnboundedSender<WorkerMsg>], err: Status) {
     for o_tx in o_txs {
         let _ = o_tx.send(Err(err.clone()));
-- 
2.43.0


From 0fcf8a6b50bc779043c75b7e08699c2fa222b40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 25/36] fix: propagate config options whose prefix or keys are
 not lowercase or repeat themselves

---
 src/config_extension_ext.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 6776d46..557d319 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -60,21 +60,19 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
         .map(|entry| entry.key)
         .collect::<HashSet<_>>();
 
-    for (k, v) in headers.iter() {
-        let key = k.as_str().trim_start_matches(FLIGHT_METADATA_CONFIG_PREFIX);
-        let prefix = format!("{}.", T::PREFIX);
-        if key.starts_with(&prefix) {
-            let key = key.trim_start_matches(&prefix);
-            if !known_keys.contains(key) {
-                continue;
-            }
+    // Header names are case-insensitive, while prefixes and keys are not, so the headers need to be
+    // looked up by the known keys instead of deriving the keys from the names of the headers.
+    for key in known_keys {
+        let header = format!("{FLIGHT_METADATA_CONFIG_PREFIX}{}.{key}", T::PREFIX);
+        let Some(v) = headers.get(header) else {
+            continue;
+        };
 
-            result.as_mut().set(
-                key,
-                v.to_str()
-                    .map_err(|err| internal_datafusion_err!("Cannot parse header value: {err}"))?,
-            )?;
-        }
+        result.as_mut().set(
+            &key,
+            v.to_str()
+                .map_err(|err| internal_datafusion_err!("Cannot parse header value: {err}"))?,
+        )?;
     }
 
     // Only insert the extension if it is not already there. If this is otherwise MutOrOwned::Mut it
-- 
2.43.0


From 97ad17cf4ce8ffdcdfcf2a37cf10cbf2d1d4374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 26/36] fix: announce the real schema of the record batches
 sent over the network

---
 src/protocol/grpc/worker_service.rs | 34 ++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/protocol/grpc/worker_service.rs b/src/protocol/grpc/worker_service.rs
index 1f0fdf0..49b4cd5 100644
--- a/src/protocol/grpc/worker_service.rs
+++ b/src/protocol/grpc/worker_service.rs
@@ -11,9 +11,9 @@ use crate::{
     WorkUnitMsg, Worker, WorkerResolver, WorkerToCoordinatorMsg,
 };
 
-use arrow_flight::FlightData;
-use arrow_flight::encode::{DictionaryHandling, FlightDataEncoder, FlightDataEncoderBuilder};
+use arrow_flight::encode::{DictionaryHandling, FlightDataEncoderBuilder};
 use arrow_flight::error::FlightError;
+use arrow_flight::{FlightData, SchemaAsIpc};
 use arrow_select::dictionary::garbage_collect_any_dictionary;
 use async_trait::async_trait;
 use datafusion::arrow::array::{Array, AsArray, RecordBatch, RecordBatchOptions};
@@ -22,7 +22,7 @@ use datafusion::arrow::ipc::writer::IpcWriteOptions;
 use datafusion::common::DataFusionError;
 use datafusion::execution::SendableRecordBatchStream;
 use futures::stream::BoxStream;
-use futures::{StreamExt, TryStreamExt};
+use futures::{Stream, StreamExt, TryStreamExt};
 use prost::Message;
 use std::sync::Arc;
 use tonic::{Request, Response, Status, Streaming};
@@ -363,13 +363,21 @@ fn missing(field: &'static str) -> impl FnOnce() -> Status {
 fn build_flight_data_stream(
     stream: SendableRecordBatchStream,
     compression_type: Option<CompressionType>,
-) -> datafusion::common::Result<FlightDataEncoder, Status> {
+) -> datafusion::common::Result<
+    impl Stream<Item = Result<FlightData, FlightError>> + Send + 'static,
+    Status,
+> {
+    let options = IpcWriteOptions::default()
+        .try_with_compression(compression_type)
+        .map_err(|err| Status::internal(err.to_string()))?;
+    // The encoder announces a schema in which it rewrites some nested types (e.g. LargeList as List)
+    // even if it sends the arrays as they are, so the first message gets the real schema instead.
+    let mut schema_header = Some(FlightData::from(SchemaAsIpc::new(
+        &stream.schema(),
+        &options,
+    )));
     let stream = FlightDataEncoderBuilder::new()
-        .with_options(
-            IpcWriteOptions::default()
-                .try_with_compression(compression_type)
-                .map_err(|err| Status::internal(err.to_string()))?,
-        )
+        .with_options(options)
         .with_schema(stream.schema())
         // This tells the encoder to send dictionaries across the wire as-is.
         // The alternative (`DictionaryHandling::Hydrate`) would expand the dictionaries
@@ -394,7 +402,13 @@ fn build_flight_data_stream(
                 // Apply garbage collection of dictionary and view arrays before sending over the network
                 .and_then(|rb| std::future::ready(garbage_collect_arrays(rb)))
                 .map_err(|err| FlightError::Tonic(Box::new(datafusion_error_to_tonic_status(err)))),
-        );
+        )
+        .map_ok(move |mut msg| {
+            if let Some(schema) = schema_header.take() {
+                msg.data_header = schema.data_header;
+            }
+            msg
+        });
     Ok(stream)
 }
 
-- 
2.43.0


From b2cf0f3815fe9dce9d738e14b3825c75e5528b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 27/36] fix: refuse partition ranges that are reversed or out
 of bounds instead of panicking

---
 src/worker/impl_execute_task.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/worker/impl_execute_task.rs b/src/worker/impl_execute_task.rs
index 3768b7c..0af0bd4 100644
--- a/src/worker/impl_execute_task.rs
+++ b/src/worker/impl_execute_task.rs
@@ -44,15 +44,14 @@ impl Worker {
 
         // Execute all the requested partitions at once, and collect all the streams so that they
         // can be merged into a single one at the end of this function.
-        let n_streams = request.target_partition_end - request.target_partition_start;
-        let mut streams = Vec::with_capacity(n_streams);
-        for partition in request.target_partition_start..request.target_partition_end {
-            if partition >= partition_count {
-                return exec_err!(
-                    "partition {partition} not available. The head plan {plan_name} of the stage just has {partition_count} partitions"
-                );
-            }
-
+        let (start, end) = (request.target_partition_start, request.target_partition_end);
+        if start > end || end > partition_count {
+            return exec_err!(
+                "partitions {start}..{end} not available. The head plan {plan_name} of the stage just has {partition_count} partitions"
+            );
+        }
+        let mut streams = Vec::with_capacity(end - start);
+        for partition in start..end {
             let stream = plan.execute(partition, Arc::clone(&task_ctx))?;
             let stream_schema = plan.schema();
 
-- 
2.43.0


From d3a7c3909655ea77f954c68b90b3bd6dfcd1d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 28/36] fix: keep unrecorded time metrics at zero when decoding
 them

---
 src/protocol/grpc/metrics_proto.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/protocol/grpc/metrics_proto.rs b/src/protocol/grpc/metrics_proto.rs
index b71ec3e..1bc80a4 100644
--- a/src/protocol/grpc/metrics_proto.rs
+++ b/src/protocol/grpc/metrics_proto.rs
@@ -290,6 +290,16 @@ pub fn df_metric_to_proto(metric: Arc<Metric>) -> Result<pb::Metric, DataFusionE
     }
 }
 
+/// Rebuilds a [Time] holding exactly the provided nanos. [Time::add_duration] counts at least 1ns, so
+/// it must not be called for a [Time] in which nothing was recorded.
+fn time_from_nanos(nanos: u64) -> Time {
+    let time = Time::new();
+    if nanos > 0 {
+        time.add_duration(std::time::Duration::from_nanos(nanos));
+    }
+    time
+}
+
 /// metric_proto_to_df converts a `pb::Metric` to a `Metric`. It consumes the pb::Metric.
 pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionError> {
     let partition = metric.partition.map(|p| p as usize);
@@ -310,8 +320,7 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             )))
         }
         Some(pb::metric::Value::ElapsedCompute(elapsed)) => {
-            let time = Time::new();
-            time.add_duration(std::time::Duration::from_nanos(elapsed.value));
+            let time = time_from_nanos(elapsed.value);
             Ok(Arc::new(Metric::new_with_labels(
                 MetricValue::ElapsedCompute(time),
                 partition,
@@ -391,8 +400,7 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             )))
         }
         Some(pb::metric::Value::Time(named_time)) => {
-            let time = Time::new();
-            time.add_duration(std::time::Duration::from_nanos(named_time.value));
+            let time = time_from_nanos(named_time.value);
             Ok(Arc::new(Metric::new_with_labels(
                 MetricValue::Time {
                     name: Cow::Owned(named_time.name),
-- 
2.43.0


From 887bd46bafee83e9e3b728f0e5e609563f9a9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 29/36] fix: send the fully matched count of pruning metrics

---
 src/protocol/grpc/generated/worker.rs | 2 ++
 src/protocol/grpc/metrics_proto.rs    | 2 ++
 src/protocol/grpc/worker.proto        | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/protocol/grpc/generated/worker.rs b/src/protocol/grpc/generated/worker.rs
index 6bf8beb..d686193 100644
--- a/src/protocol/grpc/generated/worker.rs
+++ b/src/protocol/grpc/generated/worker.rs
@@ -414,6 +414,8 @@ pub struct NamedPruningMetrics {
     pub pruned: u64,
     #[prost(uint64, tag = "3")]
     pub matched: u64,
+    #[prost(uint64, tag = "4")]
+    pub fully_matched: u64,
 }
 #[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
 pub struct NamedRatio {
diff --git a/src/protocol/grpc/metrics_proto.rs b/src/protocol/grpc/metrics_proto.rs
index 1bc80a4..c47e586 100644
--- a/src/protocol/grpc/metrics_proto.rs
+++ b/src/protocol/grpc/metrics_proto.rs
@@ -274,6 +274,7 @@ pub fn df_metric_to_proto(metric: Arc<Metric>) -> Result<pb::Metric, DataFusionE
                 name: name.to_string(),
                 pruned: pruning_metrics.pruned() as u64,
                 matched: pruning_metrics.matched() as u64,
+                fully_matched: pruning_metrics.fully_matched() as u64,
             })),
             partition,
             labels,
@@ -454,6 +455,7 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             let pruning_metrics = DfPruningMetrics::new();
             pruning_metrics.add_pruned(named_pruning.pruned as usize);
             pruning_metrics.add_matched(named_pruning.matched as usize);
+            pruning_metrics.add_fully_matched(named_pruning.fully_matched as usize);
             Ok(Arc::new(Metric::new_with_labels(
                 MetricValue::PruningMetrics {
                     name: Cow::Owned(named_pruning.name),
diff --git a/src/protocol/grpc/worker.proto b/src/protocol/grpc/worker.proto
index 2affe11..9bbe4ec 100644
--- a/src/protocol/grpc/worker.proto
+++ b/src/protocol/grpc/worker.proto
@@ -327,6 +327,7 @@ message NamedPruningMetrics {
   string name = 1;
   uint64 pruned = 2;
   uint64 matched = 3;
+  uint64 fully_matched = 4;
 }
 
 message NamedRatio {
-- 
2.43.0


From c65c1e92db4c668237074406dd29dc934da6587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 30/36] fix: send the merge strategy and display of ratio
 metrics

---
 src/protocol/grpc/generated/worker.rs | 33 +++++++++++++++++++++++++++
 src/protocol/grpc/metrics_proto.rs    | 19 +++++++++++++--
 src/protocol/grpc/worker.proto        | 11 +++++++++
 3 files changed, 61 insertions(+), 2 deletions(-)

diff --git a/src/protocol/grpc/generated/worker.rs b/src/protocol/grpc/generated/worker.rs
index d686193..bd1ebe5 100644
--- a/src/protocol/grpc/generated/worker.rs
+++ b/src/protocol/grpc/generated/worker.rs
@@ -425,6 +425,10 @@ pub struct NamedRatio {
     pub part: u64,
     #[prost(uint64, tag = "3")]
     pub total: u64,
+    #[prost(enumeration = "RatioMergeStrategy", tag = "4")]
+    pub merge_strategy: i32,
+    #[prost(bool, tag = "5")]
+    pub hide_raw_values: bool,
 }
 #[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
 pub struct BytesCount {
@@ -477,6 +481,35 @@ pub struct MaxGauge {
     #[prost(uint64, tag = "2")]
     pub value: u64,
 }
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ::prost::Enumeration)]
+#[repr(i32)]
+pub enum RatioMergeStrategy {
+    AddPartAddTotal = 0,
+    AddPartSetTotal = 1,
+    SetPartAddTotal = 2,
+}
+impl RatioMergeStrategy {
+    /// String value of the enum field names used in the ProtoBuf definition.
+    ///
+    /// The values are not transformed in any way and thus are considered stable
+    /// (if the ProtoBuf definition does not change) and safe for programmatic use.
+    pub fn as_str_name(&self) -> &'static str {
+        match self {
+            Self::AddPartAddTotal => "ADD_PART_ADD_TOTAL",
+            Self::AddPartSetTotal => "ADD_PART_SET_TOTAL",
+            Self::SetPartAddTotal => "SET_PART_ADD_TOTAL",
+        }
+    }
+    /// Creates an enum from field names used in the ProtoBuf definition.
+    pub fn from_str_name(value: &str) -> ::core::option::Option<Self> {
+        match value {
+            "ADD_PART_ADD_TOTAL" => Some(Self::AddPartAddTotal),
+            "ADD_PART_SET_TOTAL" => Some(Self::AddPartSetTotal),
+            "SET_PART_ADD_TOTAL" => Some(Self::SetPartAddTotal),
+            _ => None,
+        }
+    }
+}
 /// Generated client implementations.
 pub mod worker_service_client {
     #![allow(
diff --git a/src/protocol/grpc/metrics_proto.rs b/src/protocol/grpc/metrics_proto.rs
index c47e586..ff146e6 100644
--- a/src/protocol/grpc/metrics_proto.rs
+++ b/src/protocol/grpc/metrics_proto.rs
@@ -4,7 +4,9 @@ use datafusion::common::internal_err;
 use datafusion::error::DataFusionError;
 use datafusion::physical_plan::metrics::{Count, Gauge, Label, Time, Timestamp};
 use datafusion::physical_plan::metrics::{Metric, MetricValue, MetricsSet};
-use datafusion::physical_plan::metrics::{PruningMetrics as DfPruningMetrics, RatioMetrics};
+use datafusion::physical_plan::metrics::{
+    PruningMetrics as DfPruningMetrics, RatioMergeStrategy, RatioMetrics,
+};
 use sketches_ddsketch::DDSketch;
 use std::borrow::Cow;
 use std::sync::Arc;
@@ -284,6 +286,13 @@ pub fn df_metric_to_proto(metric: Arc<Metric>) -> Result<pb::Metric, DataFusionE
                 name: name.to_string(),
                 part: ratio_metrics.part() as u64,
                 total: ratio_metrics.total() as u64,
+                merge_strategy: match ratio_metrics.merge_strategy() {
+                    RatioMergeStrategy::AddPartAddTotal => pb::RatioMergeStrategy::AddPartAddTotal,
+                    RatioMergeStrategy::AddPartSetTotal => pb::RatioMergeStrategy::AddPartSetTotal,
+                    RatioMergeStrategy::SetPartAddTotal => pb::RatioMergeStrategy::SetPartAddTotal,
+                }
+                .into(),
+                hide_raw_values: !ratio_metrics.display_raw_values(),
             })),
             partition,
             labels,
@@ -466,7 +475,13 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             )))
         }
         Some(pb::metric::Value::Ratio(named_ratio)) => {
-            let ratio_metrics = RatioMetrics::new();
+            let ratio_metrics = RatioMetrics::new()
+                .with_merge_strategy(match named_ratio.merge_strategy() {
+                    pb::RatioMergeStrategy::AddPartAddTotal => RatioMergeStrategy::AddPartAddTotal,
+                    pb::RatioMergeStrategy::AddPartSetTotal => RatioMergeStrategy::AddPartSetTotal,
+                    pb::RatioMergeStrategy::SetPartAddTotal => RatioMergeStrategy::SetPartAddTotal,
+                })
+                .with_display_raw_values(!named_ratio.hide_raw_values);
             ratio_metrics.set_part(named_ratio.part as usize);
             ratio_metrics.set_total(named_ratio.total as usize);
             Ok(Arc::new(Metric::new_with_labels(
diff --git a/src/protocol/grpc/worker.proto b/src/protocol/grpc/worker.proto
index 9bbe4ec..3d6841c 100644
--- a/src/protocol/grpc/worker.proto
+++ b/src/protocol/grpc/worker.proto
@@ -330,10 +330,21 @@ message NamedPruningMetrics {
   uint64 fully_matched = 4;
 }
 
+// Mirrors datafusion::physical_plan::metrics::RatioMergeStrategy.
+enum RatioMergeStrategy {
+  ADD_PART_ADD_TOTAL = 0;
+  ADD_PART_SET_TOTAL = 1;
+  SET_PART_ADD_TOTAL = 2;
+}
+
 message NamedRatio {
   string name = 1;
   uint64 part = 2;
   uint64 total = 3;
+  // How to merge this ratio with other ones.
+  RatioMergeStrategy merge_strategy = 4;
+  // Whether only the percentage should be displayed.
+  bool hide_raw_values = 5;
 }
 
 message BytesCount {
-- 
2.43.0


From 8d82957a0ff0cfe332dce51798d4846d96bac323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:49 +0000
Subject: [PATCH 31/36] fix: do not list the reserved field 3 among the
 operators of the codec

---
 src/codec/distributed_codec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/distributed_codec.rs b/src/codec/distributed_codec.rs
index 780dcd7..a0573dc 100644
--- a/src/codec/distributed_codec.rs
+++ b/src/codec/distributed_codec.rs
@@ -418,7 +418,7 @@ pub struct ExecutionTaskProto {
 
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct DistributedExecProto {
-    #[prost(oneof = "DistributedExecNode", tags = "1, 2, 3, 4, 5, 6, 7")]
+    #[prost(oneof = "DistributedExecNode", tags = "1, 2, 4, 5, 6, 7")]
     pub node: Option<DistributedExecNode>,
 }
 
-- 
2.43.0


From 036c0edab40af024b839e9eb37ff3eb537b0b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 32/36] fix: fail the work unit feeds if the coordinator
 channel is lost before they end

---
 src/worker/impl_coordinator_channel.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index efba61c..155394e 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -123,7 +123,15 @@ impl Worker {
         #[allow(clippy::disallowed_methods)]
         tokio::spawn(async move {
             let mut stream = stream.map_ok(set_work_unit_received_time);
-            while let Some(Ok(msg)) = stream.next().await {
+            let mut stream_error = None;
+            while let Some(msg) = stream.next().await {
+                let msg = match msg {
+                    Ok(msg) => msg,
+                    Err(err) => {
+                        stream_error = Some(err);
+                        break;
+                    }
+                };
                 match msg {
                     CoordinatorToWorkerMsg::WorkUnitBatch(work_unit_batch) => {
                         let Some(work_unit_senders) = work_unit_senders.as_mut() else {
@@ -156,6 +164,20 @@ impl Worker {
                 }
             }
 
+            // The coordinator always announces the end of the work unit feeds. If the stream is over
+            // before that, the feeds are incomplete, and ending them as if they were not would
+            // silently lose data.
+            if let Some(work_unit_senders) = work_unit_senders.take() {
+                let err = Arc::new(stream_error.unwrap_or_else(|| {
+                    exec_datafusion_err!(
+                        "The coordinator channel was closed before the work unit feeds ended"
+                    )
+                }));
+                for tx in work_unit_senders.into_values() {
+                    let _ = tx.send(Err(DataFusionError::Shared(Arc::clone(&err))));
+                }
+            }
+
             let metrics_tx = task_data.metrics_tx.lock().unwrap().take();
             if let Some(Ok(plan)) = task_data.final_plan.get() {
                 let d_ctx = DistributedTaskContext {
-- 
2.43.0


From 7687dbe552b4f0419289ee04781d74bdc290c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:02 +0000
Subject: [PATCH 33/36] fix: send the metrics of the tasks that were never
 executed, as the coordinator waits for them

---
 src/worker/impl_coordinator_channel.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index 155394e..22e0c43 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -179,16 +179,22 @@ impl Worker {
             }
 
             let metrics_tx = task_data.metrics_tx.lock().unwrap().take();
-            if let Some(Ok(plan)) = task_data.final_plan.get() {
-                let d_ctx = DistributedTaskContext {
-                    task_index: key.task_number,
-                    task_count: request.task_count,
-                };
-                let task_data_metrics = &task_data.task_data_metrics;
-                task_data_metrics.mark_execution_finished();
-                if let Some(metrics_tx) = metrics_tx {
-                    send_metrics_via_channel(metrics_tx, plan, d_ctx, task_data_metrics);
+            let d_ctx = DistributedTaskContext {
+                task_index: key.task_number,
+                task_count: request.task_count,
+            };
+            let task_data_metrics = &task_data.task_data_metrics;
+            // If the consumer stage had no need for this task (e.g. a join with an empty side), it was
+            // never executed, but the coordinator still waits for its metrics.
+            let plan = match task_data.final_plan.get() {
+                Some(Ok(plan)) => {
+                    task_data_metrics.mark_execution_finished();
+                    plan
                 }
+                _ => &task_data.base_plan,
+            };
+            if let Some(metrics_tx) = metrics_tx {
+                send_metrics_via_channel(metrics_tx, plan, d_ctx, task_data_metrics);
             }
             task_data_entries.invalidate(&key).await
         });
-- 
2.43.0


From 2afa38949a926d416ac9f32bdeabbba62ae81aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:02 +0000
Subject: [PATCH 34/36] fix: do not attribute the metrics of the head added by
 the worker to the operators below it

---
 src/worker/impl_coordinator_channel.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index 22e0c43..73500ab 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -193,6 +193,13 @@ impl Worker {
                 }
                 _ => &task_data.base_plan,
             };
+            // The head required by the consumer stage might have been added on top of the plan sent by
+            // the coordinator. The coordinator does not know about that node, so its metrics cannot be
+            // attributed to any of the ones in its plan.
+            let plan = match plan.children().as_slice() {
+                [child] if Arc::ptr_eq(child, &task_data.base_plan) => &task_data.base_plan,
+                _ => plan,
+            };
             if let Some(metrics_tx) = metrics_tx {
                 send_metrics_via_channel(metrics_tx, plan, d_ctx, task_data_metrics);
             }
-- 
2.43.0


From 5b97354d984aead31633a3193794f9cc949ea96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:15 +0000
Subject: [PATCH 35/36] fix: give every stage one task at least, also when a
 handler asks for none

---
 src/events/desired_task_count.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/events/desired_task_count.rs b/src/events/desired_task_count.rs
index 4a33fe1..89a9838 100644
--- a/src/events/desired_task_count.rs
+++ b/src/events/desired_task_count.rs
@@ -115,8 +115,9 @@ impl TaskCountAnnotation {
 
     pub(crate) fn limit(self, limit: usize) -> Self {
         match self {
-            Desired(desired) => Desired(desired.min(limit)),
-            Maximum(maximum) => Maximum(maximum.min(limit)),
+            // Nothing can run in less than one task.
+            Desired(desired) => Desired(desired.min(limit).max(1)),
+            Maximum(maximum) => Maximum(maximum.min(limit).max(1)),
         }
     }
 
-- 
2.43.0


From d8ded60b72b0262384d95f0aab08151c43e4a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:15 +0000
Subject: [PATCH 36/36] fix: report the row progress of the plan that is
 executed

---
 src/protocol/grpc/observability/service.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/protocol/grpc/observability/service.rs b/src/protocol/grpc/observability/service.rs
index 27edee2..2d87ae0 100644
--- a/src/protocol/grpc/observability/service.rs
+++ b/src/protocol/grpc/observability/service.rs
@@ -6,9 +6,8 @@ use crate::common::serialize_uuid;
 use crate::grpc::{GetClusterWorkersRequest, GetClusterWorkersResponse};
 use crate::protocol::grpc::generated::worker as worker_pb;
 use crate::worker::{SingleWriteMultiRead, TaskData};
-use crate::{TaskKey, WorkerResolver};
+use crate::{BroadcastExec, TaskKey, WorkerResolver};
 use datafusion::error::DataFusionError;
-use datafusion::physical_plan::ExecutionPlan;
 use moka::future::Cache;
 use std::sync::Arc;
 #[cfg(feature = "system-metrics")]
@@ -95,7 +94,7 @@ impl ObservabilityService for ObservabilityServiceImpl {
 
             // Only include initialized tasks
             if let Some(Ok(task_data)) = task_data_cell.read_now() {
-                let output_rows = output_rows_from_plan(&task_data.base_plan);
+                let output_rows = output_rows_from_task(&task_data);
 
                 tasks.push(TaskProgress {
                     task_key: Some(task_key_to_proto(&internal_key)),
@@ -141,7 +140,17 @@ impl ObservabilityServiceImpl {
 }
 
 /// Extracts output rows from the root plan node's metrics.
-fn output_rows_from_plan(plan: &Arc<dyn ExecutionPlan>) -> u64 {
+fn output_rows_from_task(task_data: &TaskData) -> u64 {
+    // The root of the plan that is executed is not always the one that was received, as the
+    // producer head might have replaced it.
+    let mut plan = match task_data.final_plan.get() {
+        Some(Ok(plan)) => plan,
+        _ => &task_data.base_plan,
+    };
+    // Broadcasting keeps no metrics, and each of its input rows is produced once.
+    if let Some(broadcast) = plan.downcast_ref::<BroadcastExec>() {
+        plan = broadcast.input();
+    }
     plan.metrics().and_then(|m| m.output_rows()).unwrap_or(0) as u64
 }
 
-- 
2.43.0


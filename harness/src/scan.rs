//! The leaf the generated queries read: an in-memory table split in chunks, with public-API hooks
//! for task-count demands, scaling, faults and observation (who executed what, live streams).
use crate::data::TableData;
use datafusion::arrow::datatypes::SchemaRef;
use datafusion::catalog::{Session, TableProvider};
use datafusion::common::stats::Precision;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{Result, Statistics, exec_err, internal_err};
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::logical_expr::{Expr, TableType};
use datafusion::physical_expr::{EquivalenceProperties, LexOrdering, Partitioning, PhysicalExpr, PhysicalSortExpr};
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::metrics::{BaselineMetrics, ExecutionPlanMetricsSet, MetricsSet};
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties, StatisticsArgs};
use datafusion_distributed::{
    DesiredTaskCountEvent, DesiredTaskCountEventResponse, DistributedLeafExec, DistributedTaskContext,
    ScaleUpLeafNodeEvent, ScaleUpLeafNodeEventResponse,
};
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::StreamExt;
use std::collections::HashMap;
use std::fmt::Formatter;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, LazyLock, RwLock, Weak};

static TABLES: LazyLock<RwLock<HashMap<u64, Weak<TableData>>>> = LazyLock::new(Default::default);
static NEXT_ID: AtomicU64 = AtomicU64::new(1);

pub fn next_table_id() -> u64 {
    NEXT_ID.fetch_add(1, Ordering::Relaxed)
}
pub fn register(t: &Arc<TableData>) {
    let mut m = TABLES.write().unwrap();
    m.insert(t.id, Arc::downgrade(t));
    if m.len() > 4096 {
        m.retain(|_, v| v.strong_count() > 0);
    }
}
pub fn lookup(id: u64) -> Option<Arc<TableData>> {
    TABLES.read().unwrap().get(&id).and_then(|w| w.upgrade())
}

/// Identifies the node (coordinator or worker i) a session belongs to.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct NodeTag(pub i32);

pub fn node_of(ctx: &TaskContext) -> i32 {
    ctx.session_config().get_extension::<NodeTag>().map(|t| t.0).unwrap_or(-1)
}

#[derive(Debug)]
pub struct VScan {
    pub data: Arc<TableData>,
    pub projection: Option<Vec<usize>>,
    /// partition -> chunk ids
    pub groups: Vec<Vec<usize>>,
    /// When non-empty, the scan picks its groups by the task index it is executed with:
    /// per_task[task] -> partition -> chunk ids (all of the same length).
    pub per_task: Vec<Vec<Vec<usize>>>,
    props: Arc<PlanProperties>,
    metrics: ExecutionPlanMetricsSet,
}

impl VScan {
    pub fn new(data: Arc<TableData>, projection: Option<Vec<usize>>, groups: Vec<Vec<usize>>, per_task: Vec<Vec<Vec<usize>>>) -> Self {
        let schema = project_schema(&data.schema, &projection);
        let parts = if per_task.is_empty() { groups.len() } else { per_task[0].len() };
        let single_chunk = groups.iter().all(|g| g.len() <= 1) && per_task.iter().all(|t| t.iter().all(|g| g.len() <= 1));
        let mut eq = EquivalenceProperties::new(Arc::clone(&schema));
        if single_chunk {
            let mut exprs = vec![];
            for (col, opts) in &data.ordering {
                let name = data.schema.field(*col).name();
                let Ok(idx) = schema.index_of(name) else { break };
                exprs.push(PhysicalSortExpr {
                    expr: Arc::new(datafusion::physical_expr::expressions::Column::new(name, idx)),
                    options: *opts,
                });
            }
            if let Some(o) = LexOrdering::new(exprs) {
                eq.add_ordering(o);
            }
        }
        let props = Arc::new(PlanProperties::new(
            eq,
            Partitioning::UnknownPartitioning(parts),
            EmissionType::Incremental,
            Boundedness::Bounded,
        ));
        Self { data, projection, groups, per_task, props, metrics: Default::default() }
    }

    /// Splits the chunks for `tasks` tasks. Deterministic, disjoint, complete.
    pub fn split(&self, tasks: usize) -> Vec<Vec<Vec<usize>>> {
        let chunks: Vec<usize> = self.groups.iter().flatten().copied().collect();
        let parts = if self.data.ordering.is_empty() {
            self.groups.len().max(1)
        } else {
            chunks.len().div_ceil(tasks).max(1)
        };
        let mut out = vec![vec![vec![]; parts]; tasks];
        for (i, c) in chunks.iter().enumerate() {
            let t = i % tasks;
            let p = (i / tasks) % parts;
            out[t][p].push(*c);
        }
        out
    }
}

fn project_schema(s: &SchemaRef, p: &Option<Vec<usize>>) -> SchemaRef {
    match p {
        None => Arc::clone(s),
        Some(p) => Arc::new(s.project(p).expect("projection")),
    }
}

impl DisplayAs for VScan {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "VScan: {} groups={:?}", self.data.name, self.groups)
    }
}

impl ExecutionPlan for VScan {
    fn name(&self) -> &str {
        "VScan"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        &self.props
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![]
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(self)
    }
    fn execute(&self, partition: usize, context: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let dctx = DistributedTaskContext::from_ctx(&context);
        let groups = if self.per_task.is_empty() {
            &self.groups
        } else {
            if dctx.task_count != self.per_task.len() {
                return exec_err!("VScan scaled to {} tasks executed with task_count {}", self.per_task.len(), dctx.task_count);
            }
            &self.per_task[dctx.task_index]
        };
        let Some(chunks) = groups.get(partition) else {
            return exec_err!("VScan has {} partitions, asked for {partition}", groups.len());
        };
        let node = node_of(&context);
        self.data.note_exec(node, dctx.task_index, dctx.task_count, partition, chunks);
        if let Some(obs) = &*self.data.on_execute.lock().unwrap() {
            obs(&context);
        }
        let fault = self.data.exec_fault.lock().unwrap().clone();
        if let Some(f) = fault {
            f(dctx.task_index, partition)?;
        }
        let schema = self.schema();
        let data = Arc::clone(&self.data);
        let projection = self.projection.clone();
        let live = data.live_guard();
        let baseline = BaselineMetrics::new(&self.metrics, partition);
        let own = datafusion::physical_plan::metrics::MetricBuilder::new(&self.metrics);
        own.counter(format!("execs_of_{}", self.data.name), partition).add(1);
        let mut work = vec![];
        for c in chunks {
            for b in 0..data.chunks[*c].len() {
                work.push((*c, b));
            }
            // a slot after the last batch, so that faults can also hit the end of a chunk
            work.push((*c, usize::MAX));
        }
        let stream = futures::stream::iter(work).then(move |(c, b)| {
            let data = Arc::clone(&data);
            let projection = projection.clone();
            let rows = baseline.output_rows().clone();
            let live = Arc::clone(&live);
            async move {
                let _ = &live;
                data.step(c, b).await?;
                if b == usize::MAX {
                    return Ok(None);
                }
                let batch = &data.chunks[c][b];
                let batch = match &projection {
                    Some(p) => batch.project(p)?,
                    None => batch.clone(),
                };
                data.note_rows(batch.num_rows());
                rows.add(batch.num_rows());
                Ok(Some(batch))
            }
        });
        let stream = stream.filter_map(|r| async move { r.transpose() });
        Ok(Box::pin(RecordBatchStreamAdapter::new(schema, stream)))
    }
    fn reset_state(self: Arc<Self>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(VScan::new(Arc::clone(&self.data), self.projection.clone(), self.groups.clone(), self.per_task.clone())))
    }
    fn metrics(&self) -> Option<MetricsSet> {
        Some(self.metrics.clone_inner())
    }
    fn statistics_from_inputs(&self, _: &[Arc<Statistics>], args: &StatisticsArgs) -> Result<Arc<Statistics>> {
        let schema = self.schema();
        let mut st = Statistics::new_unknown(&schema);
        if args.partition().is_none() {
            let all: usize = self.groups.iter().flatten().map(|c| self.data.chunk_rows(*c)).sum();
            match self.data.stats {
                StatsMode::Absent => {}
                StatsMode::Exact => st.num_rows = Precision::Exact(all),
                StatsMode::Inexact { mul, div } => {
                    st.num_rows = Precision::Inexact(all * mul / div.max(1));
                    st.total_byte_size = Precision::Inexact(all * 40 * mul / div.max(1));
                }
            }
        }
        Ok(Arc::new(st))
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum StatsMode {
    Absent,
    Exact,
    Inexact { mul: usize, div: usize },
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Demand {
    Unspecified,
    Desired(usize),
    Maximum(usize),
}

pub fn as_vscan(plan: &Arc<dyn ExecutionPlan>) -> Option<&VScan> {
    plan.downcast_ref::<VScan>()
}

pub fn desired_task_count(ev: DesiredTaskCountEvent<'_>) -> Option<Result<DesiredTaskCountEventResponse>> {
    let scan = as_vscan(ev.plan)?;
    match scan.data.demand {
        Demand::Unspecified => None,
        Demand::Desired(n) => Some(Ok(DesiredTaskCountEventResponse::desired(n))),
        Demand::Maximum(n) => Some(Ok(DesiredTaskCountEventResponse::maximum(n))),
    }
}

pub fn scale_up(ev: ScaleUpLeafNodeEvent<'_>) -> Option<Result<ScaleUpLeafNodeEventResponse>> {
    let scan = as_vscan(ev.plan)?;
    if ev.task_count <= 1 {
        return Some(Ok(ScaleUpLeafNodeEventResponse::new(Arc::clone(ev.plan))));
    }
    let split = scan.split(ev.task_count);
    scan.data.scaled.lock().unwrap().push(ev.task_count);
    if scan.data.ctx_mode {
        let s = VScan::new(Arc::clone(&scan.data), scan.projection.clone(), scan.groups.clone(), split);
        return Some(Ok(ScaleUpLeafNodeEventResponse::new(Arc::new(s))));
    }
    let variants: Vec<Arc<dyn ExecutionPlan>> = split
        .into_iter()
        .map(|g| Arc::new(VScan::new(Arc::clone(&scan.data), scan.projection.clone(), g, vec![])) as _)
        .collect();
    Some(DistributedLeafExec::try_new(Arc::clone(ev.plan), variants).map(|p| ScaleUpLeafNodeEventResponse::new(Arc::new(p))))
}

#[derive(Debug, Default, Clone)]
pub struct VCodec;

impl PhysicalExtensionCodec for VCodec {
    fn try_decode(&self, buf: &[u8], inputs: &[Arc<dyn ExecutionPlan>], _: &TaskContext, _: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> {
        let v: serde_json::Value = match serde_json::from_slice(buf) {
            Ok(v) => v,
            Err(e) => return internal_err!("not a VScan: {e}"),
        };
        if v["t"] == "probe" {
            let Some(log) = crate::probe::lookup(v["id"].as_u64().unwrap_or(0)) else {
                return internal_err!("unknown probe");
            };
            let [input] = inputs else { return internal_err!("a probe has one input") };
            return Ok(Arc::new(crate::probe::Probe::new(Arc::clone(input), log)));
        }
        if v["t"] != "vscan" {
            return internal_err!("not a VScan");
        }
        let Some(data) = lookup(v["id"].as_u64().unwrap_or(0)) else {
            return internal_err!("unknown VScan table");
        };
        let fault = data.decode_fault.lock().unwrap().clone();
        if let Some(f) = fault {
            f()?;
        }
        let groups = |v: &serde_json::Value| -> Vec<Vec<usize>> {
            v.as_array().map(|a| a.iter().map(|g| g.as_array().map(|g| g.iter().map(|x| x.as_u64().unwrap_or(0) as usize).collect()).unwrap_or_default()).collect()).unwrap_or_default()
        };
        let projection = v["p"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as usize).collect());
        let per_task = v["pt"].as_array().map(|a| a.iter().map(&groups).collect()).unwrap_or_default();
        Ok(Arc::new(VScan::new(data, projection, groups(&v["g"]), per_task)))
    }
    fn try_encode(&self, node: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, _: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        if let Some(p) = node.downcast_ref::<crate::probe::Probe>() {
            buf.extend(serde_json::to_vec(&serde_json::json!({"t": "probe", "id": p.log.id})).unwrap());
            return Ok(());
        }
        let Some(s) = node.downcast_ref::<VScan>() else {
            return internal_err!("not a VScan: {}", node.name());
        };
        let v = serde_json::json!({"t": "vscan", "id": s.data.id, "p": s.projection, "g": s.groups, "pt": s.per_task});
        buf.extend(serde_json::to_vec(&v).unwrap());
        Ok(())
    }
}

#[derive(Debug)]
pub struct VTable {
    pub data: Arc<TableData>,
    /// Number of partitions of the single-node scan.
    pub partitions: usize,
}

#[async_trait::async_trait]
impl TableProvider for VTable {
    fn schema(&self) -> SchemaRef {
        Arc::clone(&self.data.schema)
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    async fn scan(&self, _state: &dyn Session, projection: Option<&Vec<usize>>, _filters: &[Expr], _limit: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
        let n = self.data.chunks.len();
        let parts = if self.data.ordering.is_empty() { self.partitions.max(1) } else { n.max(1) };
        let mut groups = vec![vec![]; parts];
        for c in 0..n {
            groups[c % parts].push(c);
        }
        Ok(Arc::new(VScan::new(Arc::clone(&self.data), projection.cloned(), groups, vec![])))
    }
}

//! A transparent operator that logs what passes through it in every task and partition, and that can
//! behave as a slow, picky or early-leaving reader of its input.
use crate::data::rows;
use crate::scan::node_of;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::Result;
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::PhysicalExpr;
use datafusion::physical_plan::metrics::{ExecutionPlanMetricsSet, MetricBuilder, MetricsSet};
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, PlanProperties};
use datafusion_distributed::DistributedTaskContext;
use futures::StreamExt;
use std::collections::HashMap;
use std::fmt::Formatter;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, LazyLock, Mutex, RwLock, Weak};

static LOGS: LazyLock<RwLock<HashMap<u64, Weak<ProbeLog>>>> = LazyLock::new(Default::default);
static NEXT: AtomicU64 = AtomicU64::new(1);

pub fn lookup(id: u64) -> Option<Arc<ProbeLog>> {
    LOGS.read().unwrap().get(&id).and_then(|w| w.upgrade())
}

#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub enum Reader {
    #[default]
    All,
    /// ends after this many batches
    StopAfter(usize),
    /// never opens its input
    Never,
    /// opens its input but drops it without polling
    OpenDrop,
    SlowMs(u64),
    /// yields so many times before every batch
    Yields(usize),
    /// after this many batches, waits until the log is released
    HoldAfter(usize),
    /// waits there when the input is over
    HoldEnd,
}

/// One execution of a probe partition.
#[derive(Debug, Clone, Default)]
pub struct Run {
    pub node: i32,
    pub task: usize,
    pub tasks: usize,
    pub partition: usize,
    pub declared: usize,
    pub reader: Reader,
    pub batches: Vec<RecordBatch>,
    pub finished: bool,
    pub error: Option<String>,
}

impl Run {
    pub fn place(&self) -> (usize, usize) {
        (self.task, self.partition)
    }
    pub fn rows(&self) -> Vec<String> {
        rows(&self.batches)
    }
}

#[derive(Default)]
pub struct ProbeLog {
    pub id: u64,
    pub runs: Mutex<Vec<Run>>,
    pub readers: HashMap<(usize, usize), Reader>,
    /// as `readers`, set later
    pub holds: Mutex<HashMap<(usize, usize), Reader>>,
    /// Partitions of a task are read one after the other in this order (empty: concurrently).
    pub sequence: Vec<usize>,
    /// A failed input is noted down, and ends the output like a complete one.
    pub swallow: std::sync::atomic::AtomicBool,
    /// Opens the readers on hold.
    pub released: tokio::sync::watch::Sender<bool>,
    /// Called with the context of every partition executed.
    pub observe: Mutex<Option<Arc<dyn Fn(&Arc<TaskContext>) + Send + Sync>>>,
    /// What the operator reports as its metrics.
    pub metrics: Mutex<Option<MetricsSet>>,
    /// Rows passed are reported as a metric of this name.
    pub tally: Mutex<Option<String>>,
    gates: Mutex<HashMap<usize, Arc<tokio::sync::watch::Sender<usize>>>>,
}

impl std::fmt::Debug for ProbeLog {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "ProbeLog({})", self.id)
    }
}

impl ProbeLog {
    pub fn new(readers: HashMap<(usize, usize), Reader>, sequence: Vec<usize>) -> Arc<Self> {
        let id = NEXT.fetch_add(1, Ordering::Relaxed);
        let l = Arc::new(ProbeLog { id, readers, sequence, ..Default::default() });
        let mut m = LOGS.write().unwrap();
        m.insert(id, Arc::downgrade(&l));
        if m.len() > 4096 {
            m.retain(|_, v| v.strong_count() > 0);
        }
        l
    }
    pub fn plain() -> Arc<Self> {
        Self::new(HashMap::new(), vec![])
    }
    pub fn runs(&self) -> Vec<Run> {
        self.runs.lock().unwrap().clone()
    }
    fn gate(&self, task: usize) -> Arc<tokio::sync::watch::Sender<usize>> {
        Arc::clone(self.gates.lock().unwrap().entry(task).or_insert_with(|| Arc::new(tokio::sync::watch::channel(0).0)))
    }
}

#[derive(Debug)]
pub struct Probe {
    pub input: Arc<dyn ExecutionPlan>,
    pub log: Arc<ProbeLog>,
    counts: ExecutionPlanMetricsSet,
}

impl Probe {
    pub fn new(input: Arc<dyn ExecutionPlan>, log: Arc<ProbeLog>) -> Self {
        Self { input, log, counts: Default::default() }
    }
}

impl DisplayAs for Probe {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "Probe")
    }
}

/// Opens the gate of the next partition when a partition is done (or dropped).
struct Pass(Option<Arc<tokio::sync::watch::Sender<usize>>>, usize);
impl Drop for Pass {
    fn drop(&mut self) {
        if let Some(g) = &self.0 {
            let n = self.1 + 1;
            g.send_if_modified(|v| {
                if *v < n {
                    *v = n;
                    true
                } else {
                    false
                }
            });
        }
    }
}

impl ExecutionPlan for Probe {
    fn name(&self) -> &str {
        "Probe"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        self.input.properties()
    }
    fn maintains_input_order(&self) -> Vec<bool> {
        vec![true]
    }
    fn benefits_from_input_partitioning(&self) -> Vec<bool> {
        vec![false]
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![&self.input]
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn with_new_children(self: Arc<Self>, mut c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(Probe::new(c.remove(0), Arc::clone(&self.log))))
    }
    fn metrics(&self) -> Option<MetricsSet> {
        if self.log.tally.lock().unwrap().is_some() {
            return Some(self.counts.clone_inner());
        }
        self.log.metrics.lock().unwrap().clone()
    }
    fn execute(&self, partition: usize, context: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let d = DistributedTaskContext::from_ctx(&context);
        let place = (d.task_index, partition);
        let hold = self.log.holds.lock().unwrap().get(&place).copied();
        let reader = hold.or(self.log.readers.get(&place).copied()).unwrap_or_default();
        let slot = {
            let mut r = self.log.runs.lock().unwrap();
            r.push(Run {
                node: node_of(&context),
                task: d.task_index,
                tasks: d.task_count,
                partition,
                declared: self.input.output_partitioning().partition_count(),
                reader,
                ..Default::default()
            });
            r.len() - 1
        };
        let observe = self.log.observe.lock().unwrap().clone();
        if let Some(f) = observe {
            f(&context);
        }
        let tally = self.log.tally.lock().unwrap().clone().map(|n| {
            let b = MetricBuilder::new(&self.counts);
            if n == "output_rows" { b.output_rows(partition) } else { b.counter(n, partition) }
        });
        let schema = self.input.schema();
        let mut input = match reader {
            Reader::Never => None,
            _ => Some(self.input.execute(partition, context)?),
        };
        let log = Arc::clone(&self.log);
        let turn = log.sequence.iter().position(|p| *p == partition);
        let gate = turn.map(|_| log.gate(d.task_index));
        struct St {
            input: Option<SendableRecordBatchStream>,
            log: Arc<ProbeLog>,
            gate: Option<Arc<tokio::sync::watch::Sender<usize>>>,
            turn: usize,
            waited: bool,
            n: usize,
            tally: Option<datafusion::physical_plan::metrics::Count>,
            _pass: Pass,
        }
        let st = St { input: input.take(), log, turn: turn.unwrap_or(0), waited: gate.is_none(), n: 0, tally, _pass: Pass(gate.clone(), turn.unwrap_or(0)), gate };
        let s = futures::stream::unfold(st, move |mut st| async move {
            if !st.waited {
                let mut rx = st.gate.as_ref()?.subscribe();
                let t = st.turn;
                let _ = rx.wait_for(|v| *v >= t).await;
                st.waited = true;
            }
            match reader {
                Reader::StopAfter(k) if st.n >= k => return None,
                Reader::OpenDrop => return None,
                Reader::SlowMs(ms) => tokio::time::sleep(std::time::Duration::from_millis(ms)).await,
                Reader::Yields(k) => {
                    for _ in 0..k {
                        tokio::task::yield_now().await
                    }
                }
                Reader::HoldAfter(k) if st.n == k => {
                    let mut rx = st.log.released.subscribe();
                    let _ = rx.wait_for(|v| *v).await;
                }
                _ => {}
            }
            match st.input.as_mut()?.next().await {
                None => {
                    if reader == Reader::HoldEnd {
                        let mut rx = st.log.released.subscribe();
                        let _ = rx.wait_for(|v| *v).await;
                    }
                    st.log.runs.lock().unwrap()[slot].finished = true;
                    None
                }
                Some(Ok(b)) => {
                    st.log.runs.lock().unwrap()[slot].batches.push(b.clone());
                    if let Some(c) = &st.tally {
                        c.add(b.num_rows());
                    }
                    st.n += 1;
                    Some((Ok(b), st))
                }
                Some(Err(e)) => {
                    st.log.runs.lock().unwrap()[slot].error = Some(e.to_string());
                    st.input = None;
                    if st.log.swallow.load(Ordering::SeqCst) {
                        return None;
                    }
                    Some((Err(e), st))
                }
            }
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(schema, s)))
    }
}

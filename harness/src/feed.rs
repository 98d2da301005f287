//! A leaf that learns from a work unit feed which batches of its table to read.
use crate::data::TableData;
use crate::scan::{Demand, StatsMode, node_of};
use datafusion::arrow::datatypes::SchemaRef;
use datafusion::catalog::{Session, TableProvider};
use datafusion::common::stats::Precision;
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{DataFusionError, Result, Statistics, exec_err, internal_err};
use datafusion::execution::{SendableRecordBatchStream, SessionStateBuilder, TaskContext};
use datafusion::logical_expr::{Expr, TableType};
use datafusion::physical_expr::{EquivalenceProperties, LexOrdering, Partitioning, PhysicalExpr, PhysicalSortExpr, expressions::Column};
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::metrics::MetricsSet;
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties, StatisticsArgs};
use datafusion_distributed::*;
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::StreamExt;
use futures::stream::BoxStream;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Formatter;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, LazyLock, Mutex, RwLock, Weak};

static FEEDS: LazyLock<RwLock<HashMap<u64, Weak<FeedData>>>> = LazyLock::new(Default::default);
static NEXT: AtomicU64 = AtomicU64::new(1);

#[derive(Clone, PartialEq, ::prost::Message)]
pub struct UnitA {
    #[prost(uint64, tag = "1")]
    pub scan: u64,
    #[prost(uint64, tag = "2")]
    pub part: u64,
    #[prost(uint64, tag = "3")]
    pub seq: u64,
    /// chunk and batch, none for a unit without rows
    #[prost(uint64, optional, tag = "4")]
    pub chunk: Option<u64>,
    #[prost(uint64, tag = "5")]
    pub batch: u64,
    #[prost(bytes, tag = "6")]
    pub pad: Vec<u8>,
}

/// The same in other words.
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct UnitB {
    #[prost(string, tag = "1")]
    pub what: String,
    #[prost(bytes, tag = "9")]
    pub pad: Vec<u8>,
}

pub trait Unit: WorkUnit + Default + Clone + std::fmt::Debug + 'static {
    fn of(a: UnitA) -> Self;
    fn into_a(self) -> Option<UnitA>;
}
impl Unit for UnitA {
    fn of(a: UnitA) -> Self {
        a
    }
    fn into_a(self) -> Option<UnitA> {
        Some(self)
    }
}
impl Unit for UnitB {
    fn of(a: UnitA) -> Self {
        UnitB { what: format!("{}/{}/{}/{}/{}", a.scan, a.part, a.seq, a.chunk.map(|c| c.to_string()).unwrap_or_default(), a.batch), pad: a.pad }
    }
    fn into_a(self) -> Option<UnitA> {
        let v: Vec<&str> = self.what.split('/').collect();
        let [s, p, q, c, b] = v[..] else { return None };
        Some(UnitA { scan: s.parse().ok()?, part: p.parse().ok()?, seq: q.parse().ok()?, chunk: if c.is_empty() { None } else { Some(c.parse().ok()?) }, batch: b.parse().ok()?, pad: self.pad })
    }
}

#[derive(Clone, Debug)]
pub struct Gate {
    /// partition that waits before its unit `at`
    pub part: usize,
    pub at: usize,
    /// until so many units of that partition arrived
    pub other: usize,
    pub units: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// the stream of a partition fails instead of unit n
    Stream(usize),
    /// the stream panics there
    Panic(usize),
    /// the partition cannot be opened
    Open,
}

/// How units are emitted.
#[derive(Clone, Debug, Default)]
pub struct Script {
    pub seed: u32,
    /// units without rows: at most so many before each unit with rows
    pub empties: usize,
    pub pad: usize,
    /// 0 never, else before every n-th unit (by hash) something happens
    pub pause_every: usize,
    pub sleep: bool,
    /// order of the partitions, when to wait, units to wait for, whether to wait
    pub gates: Vec<(u32, usize, usize, bool)>,
    pub fail: Option<(usize, Fail)>,
    /// readers of some partitions (of all partitions, modulo) let go of their feed after so many units
    pub stops: Vec<Option<usize>>,
}

#[derive(Debug, Clone)]
pub struct Opened {
    pub scan: u64,
    pub part: usize,
    pub parts: usize,
    pub tasks: usize,
    pub node: i32,
    /// it could not be opened
    pub failed: bool,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Reader {
    pub scan: u64,
    pub node: i32,
    pub task: usize,
    pub tasks: usize,
    pub partition: usize,
    pub parts: usize,
}

#[derive(Debug, Default, Clone)]
pub struct Got {
    pub units: Vec<(usize, usize)>,
    pub ended: bool,
    pub times: usize,
}

/// Done before unit n of a partition (of all partitions, modulo).
pub struct Hook {
    pub part: usize,
    pub at: usize,
    pub call: Box<dyn Fn() + Send + Sync>,
}
impl std::fmt::Debug for Hook {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "Hook({}, {})", self.part, self.at)
    }
}

#[derive(Debug)]
pub struct FeedData {
    pub id: u64,
    pub kind: usize,
    pub data: Arc<TableData>,
    pub script: Script,
    pub opened: Mutex<Vec<Opened>>,
    pub got: Mutex<BTreeMap<Reader, Got>>,
    pub bad: Mutex<Vec<String>>,
    pub failed: AtomicUsize,
    pub hook: Mutex<Option<Hook>>,
    /// faults are on
    pub armed: AtomicBool,
    cache: Mutex<HashMap<(u64, usize, usize), Arc<Vec<UnitA>>>>,
}

pub const FEED_FAILS: &str = "E!feed";

fn mix(a: u32, b: u32) -> u32 {
    let mut x = a.wrapping_mul(0x9E37_79B1) ^ b.wrapping_mul(0x85EB_CA77);
    x ^= x >> 15;
    x = x.wrapping_mul(0x2C1B_3C6D);
    x ^ (x >> 12)
}

impl Script {
    pub fn stop(&self, part: usize) -> Option<usize> {
        if self.stops.is_empty() { None } else { self.stops[part % self.stops.len()] }
    }
    /// Partitions in some order, each may wait for an earlier one.
    fn gates(&self, all: usize) -> Vec<Gate> {
        let n = self.gates.len();
        if n == 0 {
            return vec![];
        }
        let mut order: Vec<usize> = (0..all).collect();
        order.sort_by_key(|p| mix(self.gates[p % n].0, *p as u32));
        (1..all).filter(|k| self.gates[k % n].3).map(|k| { let g = self.gates[k % n]; Gate { part: order[k], at: g.1, other: order[g.0 as usize % k], units: g.2 } }).collect()
    }
}

impl FeedData {
    pub fn new(data: Arc<TableData>, kind: usize, script: Script) -> Arc<Self> {
        let f = Arc::new(FeedData {
            id: NEXT.fetch_add(1, Ordering::Relaxed),
            kind,
            data,
            script,
            opened: Default::default(),
            got: Default::default(),
            bad: Default::default(),
            failed: Default::default(),
            hook: Default::default(),
            armed: AtomicBool::new(true),
            cache: Default::default(),
        });
        let mut m = FEEDS.write().unwrap();
        m.retain(|_, v| v.strong_count() > 0);
        m.insert(f.id, Arc::downgrade(&f));
        f
    }
    /// The units of partition `part` of `all`.
    pub fn units(&self, scan: u64, part: usize, all: usize) -> Arc<Vec<UnitA>> {
        Arc::clone(self.cache.lock().unwrap().entry((scan, part, all)).or_insert_with(|| Arc::new(self.make_units(scan, part, all))))
    }
    fn make_units(&self, scan: u64, part: usize, all: usize) -> Vec<UnitA> {
        let mut v: Vec<UnitA> = vec![];
        let mut push = |chunk: Option<usize>, batch: usize| {
            let n = mix(self.script.seed ^ 77, (v.len() * 31 + part) as u32) as usize;
            let pad = if self.script.pad == 0 { 0 } else { n % (self.script.pad + 1) };
            v.push(UnitA { scan, part: part as u64, seq: v.len() as u64, chunk: chunk.map(|c| c as u64), batch: batch as u64, pad: vec![(n % 251) as u8; pad] });
        };
        let empties = |a: usize, b: usize| if self.script.empties == 0 { 0 } else { mix(self.script.seed, (a * 64 + b) as u32) as usize % (self.script.empties + 1) };
        for c in 0..self.data.chunks.len() {
            if c % all != part {
                continue;
            }
            for b in 0..self.data.chunks[c].len() {
                for _ in 0..empties(c, b) {
                    push(None, 0);
                }
                push(Some(c), b);
            }
        }
        for _ in 0..empties(part, 63) {
            push(None, 0);
        }
        v
    }
    fn arrived(&self, scan: u64, part: usize) -> usize {
        self.got.lock().unwrap().iter().filter(|(r, _)| r.scan == scan).flat_map(|(_, g)| g.units.iter()).filter(|u| u.0 == part).count()
    }
    fn emit<U: Unit>(self: &Arc<Self>, scan: u64, part: usize, all: usize) -> BoxStream<'static, Result<U>> {
        let me = Arc::clone(self);
        let fail = match &self.script.fail {
            Some((p, f)) if p % all == part && self.armed.load(Ordering::SeqCst) => Some(f.clone()),
            _ => None,
        };
        let units = self.units(scan, part, all);
        let n = units.len();
        let gates: Vec<Gate> = self.script.gates(all).into_iter().filter(|g| g.part == part).collect();
        // a last step without unit, for what happens after the last one
        futures::stream::iter((0..=n).zip(units.iter().cloned().map(Some).chain([None]).collect::<Vec<_>>()))
            .then(move |(i, u)| {
                let me = Arc::clone(&me);
                let fail = fail.clone();
                let gates: Vec<Gate> = gates.iter().filter(|g| g.at.min(n) == i).cloned().collect();
                async move {
                    for g in gates {
                        while me.arrived(scan, g.other) < g.units.min(me.units(scan, g.other, all).len()) {
                            tokio::time::sleep(std::time::Duration::from_millis(1)).await;
                        }
                    }
                    if me.script.pause_every > 0 && mix(me.script.seed ^ 5, (i * 97 + part) as u32) as usize % me.script.pause_every == 0 {
                        if me.script.sleep {
                            tokio::time::sleep(std::time::Duration::from_millis(1)).await;
                        } else {
                            tokio::task::yield_now().await;
                        }
                    }
                    let hit = |h: &Hook| h.part % all == part && h.at.min(n) == i;
                    if let Some(h) = me.hook.lock().unwrap().as_ref().filter(|h| hit(h)) {
                        me.failed.fetch_add(1, Ordering::SeqCst);
                        (h.call)();
                    }
                    tokio::task::yield_now().await;
                    match fail {
                        Some(Fail::Stream(k)) if k.min(n) == i => {
                            me.failed.fetch_add(1, Ordering::SeqCst);
                            return Err(DataFusionError::Execution(FEED_FAILS.into()));
                        }
                        Some(Fail::Panic(k)) if k.min(n) == i => {
                            me.failed.fetch_add(1, Ordering::SeqCst);
                            panic!("{FEED_FAILS}");
                        }
                        _ => {}
                    }
                    Ok(u.map(U::of))
                }
            })
            .filter_map(|r: Result<Option<U>>| async move { r.transpose() })
            .scan(false, |over, r| futures::future::ready(if std::mem::replace(over, r.is_err()) { None } else { Some(r) }))
            .boxed()
    }
    pub fn refused(&self) -> bool {
        self.opened.lock().unwrap().iter().any(|o| o.failed)
    }
    /// What is wrong with what happened, as far as it happened.
    /// `refused`: some feed of the query could not be opened; operators may execute inputs again when
    /// one of them could not be executed.
    pub fn check(&self, refused: bool) -> std::result::Result<(), (String, String)> {
        let err = |s: &str, m: String| Err((s.to_string(), format!("{m} (table {})", self.data.name)));
        if let Some(m) = self.bad.lock().unwrap().first() {
            return err("unit altered", m.clone());
        }
        let opened = self.opened.lock().unwrap().clone();
        let mut seen: HashMap<(u64, usize), usize> = HashMap::new();
        for o in &opened {
            if o.node != crate::cluster::COORD {
                return err("provider ran on a worker", format!("{o:?}"));
            }
            if o.part >= o.parts * o.tasks {
                return err("provider partition out of range", format!("{o:?}"));
            }
            *seen.entry((o.scan, o.part)).or_default() += !refused as usize;
        }
        if let Some((k, n)) = seen.iter().find(|x| *x.1 > 1) {
            return err("partition opened again", format!("partition {} of scan {} was opened {n} times", k.1, k.0));
        }
        let mut owner: HashMap<(u64, usize), Reader> = HashMap::new();
        for (r, g) in self.got.lock().unwrap().iter() {
            if g.times > 1 && !refused {
                return err("feed read twice", format!("{r:?}"));
            }
            for (i, (part, seq)) in g.units.iter().enumerate() {
                let mine = r.parts * r.task + r.partition;
                if *part != mine {
                    return err("unit of another task or partition", format!("{r:?} received unit {seq} of partition {part}, its own is {mine}"));
                }
                if *seq != i {
                    return err("units lost, repeated or out of order", format!("{r:?} received unit {seq} as number {i}"));
                }
            }
            if !g.units.is_empty()
                && let Some(o) = owner.insert((r.scan, r.parts * r.task + r.partition), r.clone())
            {
                return err("units delivered twice", format!("to {o:?} and {r:?}"));
            }
            let mine = opened.iter().find(|o| o.scan == r.scan);
            if let Some(o) = mine
                && (o.tasks != r.tasks || o.parts != r.parts)
            {
                return err("fan out differs", format!("{o:?} but {r:?}"));
            }
        }
        Ok(())
    }
    /// The rows all readers of one scan take, given its number of partitions.
    pub fn taken(&self, all: usize) -> Vec<datafusion::arrow::array::RecordBatch> {
        let mut v = vec![];
        for p in 0..all {
            let units = self.units(u64::MAX, p, all);
            for u in units.iter().take(self.script.stop(p).unwrap_or(usize::MAX)) {
                if let Some(c) = u.chunk {
                    v.push(self.data.chunks[c as usize][u.batch as usize].clone());
                }
            }
        }
        v
    }
    /// Every partition of every scan that was read came in completely.
    pub fn complete(&self) -> std::result::Result<(), (String, String)> {
        for (r, g) in self.got.lock().unwrap().iter() {
            let part = r.parts * r.task + r.partition;
            let n = self.units(r.scan, part, r.parts * r.tasks).len();
            let n = self.script.stop(part).map_or(n, |k| n.min(k));
            if g.units.len() != n || !g.ended {
                return Err(("units missing".into(), format!("{r:?} received {} of {n} units, ended: {}", g.units.len(), g.ended)));
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug)]
pub struct Prov<U> {
    of: Arc<FeedData>,
    scan: u64,
    parts: usize,
    _u: std::marker::PhantomData<fn() -> U>,
}

impl<U: Unit> WorkUnitFeedProvider for Prov<U> {
    type WorkUnit = U;
    fn feed(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<BoxStream<'static, Result<U>>> {
        let tasks = DistributedWorkUnitFeedContext::from_ctx(&ctx).fan_out_tasks;
        let all = self.parts * tasks;
        let failed = matches!(&self.of.script.fail, Some((p, Fail::Open)) if p % all == partition) && self.of.armed.load(Ordering::SeqCst);
        self.of.opened.lock().unwrap().push(Opened { scan: self.scan, part: partition, parts: self.parts, tasks, node: node_of(&ctx), failed });
        if failed {
            self.of.failed.fetch_add(1, Ordering::SeqCst);
            return exec_err!("{FEED_FAILS}");
        }
        Ok(self.of.emit(self.scan, partition, all))
    }
}

#[derive(Clone, Debug)]
pub enum Feed {
    A(WorkUnitFeed<Prov<UnitA>>),
    B(WorkUnitFeed<Prov<UnitB>>),
}

impl Feed {
    fn with_parts(&self, parts: usize) -> Self {
        let mut f = self.clone();
        match &mut f {
            Feed::A(f) => f.inner_mut().iter_mut().for_each(|p| p.parts = parts),
            Feed::B(f) => f.inner_mut().iter_mut().for_each(|p| p.parts = parts),
        }
        f
    }
    fn proto(&self) -> WorkUnitFeedProto {
        match self {
            Feed::A(f) => f.to_proto(),
            Feed::B(f) => f.to_proto(),
        }
    }
    fn stream(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<BoxStream<'static, Result<Option<UnitA>>>> {
        Ok(match self {
            Feed::A(f) => f.feed(partition, ctx)?.map(|u| u.map(Unit::into_a)).boxed(),
            Feed::B(f) => f.feed(partition, ctx)?.map(|u| u.map(Unit::into_a)).boxed(),
        })
    }
}

#[derive(Debug)]
pub struct FeedScan {
    pub of: Arc<FeedData>,
    pub scan: u64,
    pub feed: Feed,
    pub parts: usize,
    pub single: usize,
    pub projection: Option<Vec<usize>>,
    props: Arc<PlanProperties>,
}

impl FeedScan {
    pub fn new(of: &Arc<FeedData>, parts: usize, projection: Option<Vec<usize>>) -> Self {
        let parts = if of.data.ordering.is_empty() { parts.max(1) } else { of.data.chunks.len().max(1) };
        let scan = NEXT.fetch_add(1, Ordering::Relaxed);
        let feed = match of.kind {
            0 => Feed::A(WorkUnitFeed::new(Prov { of: Arc::clone(of), scan, parts, _u: Default::default() })),
            _ => Feed::B(WorkUnitFeed::new(Prov { of: Arc::clone(of), scan, parts, _u: Default::default() })),
        };
        Self::with(of, scan, feed, parts, parts, projection)
    }
    fn with(of: &Arc<FeedData>, scan: u64, feed: Feed, parts: usize, single: usize, projection: Option<Vec<usize>>) -> Self {
        let schema: SchemaRef = match &projection {
            None => Arc::clone(&of.data.schema),
            Some(p) => Arc::new(of.data.schema.project(p).expect("projection")),
        };
        let mut eq = EquivalenceProperties::new(Arc::clone(&schema));
        let mut exprs = vec![];
        for (col, opts) in &of.data.ordering {
            let name = of.data.schema.field(*col).name();
            let Ok(i) = schema.index_of(name) else { break };
            exprs.push(PhysicalSortExpr { expr: Arc::new(Column::new(name, i)), options: *opts });
        }
        if let Some(o) = LexOrdering::new(exprs) {
            eq.add_ordering(o);
        }
        let props = Arc::new(PlanProperties::new(eq, Partitioning::UnknownPartitioning(parts), EmissionType::Incremental, Boundedness::Bounded));
        Self { of: Arc::clone(of), scan, feed, parts, single, projection, props }
    }
}

impl DisplayAs for FeedScan {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "FeedScan: {} kind={} partitions={}", self.of.data.name, self.of.kind, self.parts)
    }
}

impl ExecutionPlan for FeedScan {
    fn name(&self) -> &str {
        "FeedScan"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        &self.props
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![]
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(self)
    }
    fn execute(&self, partition: usize, context: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let d = DistributedTaskContext::from_ctx(&context);
        let reader = Reader { scan: self.scan, node: node_of(&context), task: d.task_index, tasks: d.task_count, partition, parts: self.parts };
        let of = Arc::clone(&self.of);
        of.got.lock().unwrap().entry(reader.clone()).or_default().times += 1;
        let mut units = self.feed.stream(partition, context)?;
        if let Some(k) = of.script.stop(reader.parts * reader.task + reader.partition) {
            units = units.take(k).boxed();
        }
        let projection = self.projection.clone();
        let (of2, reader2) = (Arc::clone(&of), reader.clone());
        let stream = units
            .map(move |u| {
                let u = match u? {
                    Some(u) => u,
                    None => {
                        of.bad.lock().unwrap().push(format!("{reader:?} received a unit that cannot be read"));
                        return exec_err!("unreadable unit");
                    }
                };
                let all = reader.parts * reader.tasks;
                let want = of.units(u.scan, u.part as usize % all, all);
                let want = want.get(u.seq as usize);
                if u.scan != reader.scan || want != Some(&u) {
                    of.bad.lock().unwrap().push(format!("{reader:?} received {u:?} instead of {want:?}"));
                }
                of.got.lock().unwrap().entry(reader.clone()).or_default().units.push((u.part as usize, u.seq as usize));
                let Some(c) = u.chunk else { return Ok(None) };
                let Some(b) = of.data.chunks.get(c as usize).and_then(|c| c.get(u.batch as usize)) else {
                    return exec_err!("no such batch");
                };
                Ok(Some(match &projection {
                    Some(p) => b.project(p)?,
                    None => b.clone(),
                }))
            })
            .chain(futures::stream::once(async move {
                of2.got.lock().unwrap().entry(reader2).or_default().ended = true;
                Ok(None)
            }))
            .filter_map(|r: Result<_>| async move { r.transpose() });
        Ok(Box::pin(RecordBatchStreamAdapter::new(self.schema(), stream)))
    }
    fn metrics(&self) -> Option<MetricsSet> {
        Some(match &self.feed {
            Feed::A(f) => f.metrics().clone_inner(),
            Feed::B(f) => f.metrics().clone_inner(),
        })
    }
    fn statistics_from_inputs(&self, _: &[Arc<Statistics>], args: &StatisticsArgs) -> Result<Arc<Statistics>> {
        let mut st = Statistics::new_unknown(&self.schema());
        if args.partition().is_none() {
            let all = self.of.data.total_rows();
            match self.of.data.stats {
                StatsMode::Absent => {}
                StatsMode::Exact => st.num_rows = Precision::Exact(all),
                StatsMode::Inexact { mul, div } => {
                    st.num_rows = Precision::Inexact(all * mul / div.max(1));
                    st.total_byte_size = Precision::Inexact(all * 40 * mul / div.max(1));
                }
            }
        }
        Ok(Arc::new(st))
    }
}

#[derive(Debug)]
pub struct FeedTable {
    pub of: Arc<FeedData>,
    pub partitions: usize,
}

#[async_trait::async_trait]
impl TableProvider for FeedTable {
    fn schema(&self) -> SchemaRef {
        Arc::clone(&self.of.data.schema)
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    async fn scan(&self, _state: &dyn Session, projection: Option<&Vec<usize>>, _filters: &[Expr], _limit: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(FeedScan::new(&self.of, self.partitions, projection.cloned())))
    }
}

#[derive(Debug, Default, Clone)]
pub struct FeedCodec;

impl PhysicalExtensionCodec for FeedCodec {
    fn try_decode(&self, buf: &[u8], _: &[Arc<dyn ExecutionPlan>], _: &TaskContext, _: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> {
        let v: serde_json::Value = match serde_json::from_slice(buf) {
            Ok(v) => v,
            Err(e) => return internal_err!("not a FeedScan: {e}"),
        };
        if v["t"] != "feed" {
            return internal_err!("not a FeedScan");
        }
        let Some(of) = FEEDS.read().unwrap().get(&v["id"].as_u64().unwrap_or(0)).and_then(|w| w.upgrade()) else {
            return internal_err!("unknown feed");
        };
        let num = |k: &str| v[k].as_u64().unwrap_or(0) as usize;
        let proto = WorkUnitFeedProto { id: v["feed"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default() };
        let feed = match of.kind {
            0 => Feed::A(WorkUnitFeed::from_proto(proto)?),
            _ => Feed::B(WorkUnitFeed::from_proto(proto)?),
        };
        let projection = v["p"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as usize).collect());
        Ok(Arc::new(FeedScan::with(&of, num("scan") as u64, feed, num("parts"), num("single"), projection)))
    }
    fn try_encode(&self, node: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, _: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        let Some(s) = node.downcast_ref::<FeedScan>() else {
            return internal_err!("not a FeedScan: {}", node.name());
        };
        let v = serde_json::json!({"t": "feed", "id": s.of.id, "p": s.projection, "scan": s.scan, "parts": s.parts, "single": s.single, "feed": s.feed.proto().id});
        buf.extend(serde_json::to_vec(&v).unwrap());
        Ok(())
    }
}

fn demand(ev: DesiredTaskCountEvent<'_>) -> Option<Result<DesiredTaskCountEventResponse>> {
    let scan = ev.plan.downcast_ref::<FeedScan>()?;
    match scan.of.data.demand {
        Demand::Unspecified => None,
        Demand::Desired(n) => Some(Ok(DesiredTaskCountEventResponse::desired(n))),
        Demand::Maximum(n) => Some(Ok(DesiredTaskCountEventResponse::maximum(n))),
    }
}

fn scale(ev: ScaleUpLeafNodeEvent<'_>) -> Option<Result<ScaleUpLeafNodeEventResponse>> {
    let s = ev.plan.downcast_ref::<FeedScan>()?;
    let parts = if s.of.data.ordering.is_empty() { s.parts } else { s.single.div_ceil(ev.task_count) };
    let p = FeedScan::with(&s.of, s.scan, s.feed.with_parts(parts), parts, s.single, s.projection.clone());
    Some(Ok(ScaleUpLeafNodeEventResponse::new(Arc::new(p))))
}

/// Makes a querying session know feeds; the getters are registered in either order.
pub fn with_feeds(b: SessionStateBuilder, swap: bool) -> SessionStateBuilder {
    fn get_a(p: &FeedScan) -> Option<&WorkUnitFeed<Prov<UnitA>>> {
        match &p.feed {
            Feed::A(f) => Some(f),
            _ => None,
        }
    }
    fn get_b(p: &FeedScan) -> Option<&WorkUnitFeed<Prov<UnitB>>> {
        match &p.feed {
            Feed::B(f) => Some(f),
            _ => None,
        }
    }
    let b = b.with_distributed_user_codec(FeedCodec).with_distributed_desired_task_count_handler(demand).with_distributed_scale_up_leaf_node_handler(scale);
    match swap {
        false => b.with_distributed_work_unit_feed(get_a).with_distributed_work_unit_feed(get_b),
        true => b.with_distributed_work_unit_feed(get_b).with_distributed_work_unit_feed(get_a),
    }
}

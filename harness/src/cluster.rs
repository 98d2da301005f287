//! One in-process cluster per case: N workers, each behind its own gRPC server on in-memory
//! connections, with a recording and fault-injecting channel resolver in front of every caller.
use crate::scan::{NodeTag, VCodec, desired_task_count, scale_up};
use crate::tape::Tape;
use async_trait::async_trait;
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::{DataFusionError, Result};
use datafusion::execution::memory_pool::{MemoryConsumer, MemoryLimit, MemoryPool, MemoryReservation};
use datafusion::execution::runtime_env::{RuntimeEnv, RuntimeEnvBuilder};
use datafusion::execution::{SessionState, SessionStateBuilder, TaskContext};
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_distributed::{
    ChannelResolver, CompressionType, CoordinatorToWorkerMsg, DistributedExt, ExecuteTaskRequest, GetWorkerInfoRequest,
    GetWorkerInfoResponse, ProducerHead, SessionStateBuilderExt, SetPlanRequest, TaskKey, Worker, WorkerChannel,
    WorkerQueryContext, WorkerResolver, WorkerToCoordinatorMsg, grpc,
};
use futures::StreamExt;
use futures::stream::BoxStream;
use http::HeaderMap;
use hyper_util::rt::TokioIo;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tonic::transport::{Endpoint, Server};
use url::Url;

pub const COORD: i32 = -1;

/// Unbounded memory pool remembering the peak.
#[derive(Debug, Default)]
pub struct PeakPool {
    used: AtomicUsize,
    peak: AtomicUsize,
}
impl PeakPool {
    pub fn peak(&self) -> usize {
        self.peak.load(Ordering::SeqCst)
    }
    pub fn used(&self) -> usize {
        self.used.load(Ordering::SeqCst)
    }
}
impl std::fmt::Display for PeakPool {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "PeakPool({})", self.used())
    }
}
impl MemoryPool for PeakPool {
    fn name(&self) -> &str {
        "peak"
    }
    fn register(&self, _: &MemoryConsumer) {}
    fn unregister(&self, _: &MemoryConsumer) {}
    fn grow(&self, _: &MemoryReservation, n: usize) {
        let u = self.used.fetch_add(n, Ordering::SeqCst) + n;
        self.peak.fetch_max(u, Ordering::SeqCst);
    }
    fn shrink(&self, _: &MemoryReservation, n: usize) {
        self.used.fetch_sub(n, Ordering::SeqCst);
    }
    fn try_grow(&self, r: &MemoryReservation, n: usize) -> Result<()> {
        self.grow(r, n);
        Ok(())
    }
    fn reserved(&self) -> usize {
        self.used()
    }
    fn memory_limit(&self) -> MemoryLimit {
        MemoryLimit::Infinite
    }
}

pub fn runtime() -> (Arc<RuntimeEnv>, Arc<PeakPool>) {
    let pool = Arc::new(PeakPool::default());
    let rt = RuntimeEnvBuilder::new().with_memory_pool(Arc::clone(&pool) as _).build_arc().unwrap();
    (rt, pool)
}

#[derive(Clone, Debug)]
pub enum Event {
    SetPlan { origin: i32, target: Url, key: TaskKey, task_count: usize, declared_url: Url, plan: Option<Arc<dyn ExecutionPlan>>, feeds: usize, headers: HeaderMap },
    SetPlanDone { key: TaskKey, ok: bool },
    Exec { origin: i32, target: Url, key: TaskKey, start: usize, end: usize, head: &'static str, headers: HeaderMap },
    ExecDone { key: TaskKey, ok: bool },
    /// Metrics of a task arrived at the caller.
    Metrics { key: TaskKey, rows: Vec<Option<usize>> },
    /// A WorkUnit message leaves the coordinator.
    Info { target: Url },
}

/// A fault injected at the transport.
#[derive(Clone, Debug)]
pub enum NetFault {
    /// Fail the n-th (0-based) coordinator_channel call with this message.
    SetPlan(usize, String),
    /// Fail the n-th execute_task call with this message.
    Exec(usize, String),
    /// In the n-th execute_task call, replace everything after k batches of partition stream 0 by an error.
    ExecStream(usize, usize, String),
    /// Delay the n-th coordinator_channel call.
    DelaySetPlan(usize, u64),
    DelayExec(usize, u64),
}

#[derive(Default)]
pub struct Shared {
    pub events: Mutex<Vec<Event>>,
    pub faults: Mutex<Vec<NetFault>>,
    pub faults_hit: AtomicUsize,
    pub setplans: AtomicUsize,
    pub execs: AtomicUsize,
    pub batches: AtomicUsize,
    pub rows: AtomicUsize,
    pub keep_plans: AtomicBool,
    pub unknown_urls: Mutex<Vec<String>>,
}

impl Shared {
    fn log(&self, e: Event) {
        self.events.lock().unwrap().push(e);
    }
    pub fn take_events(&self) -> Vec<Event> {
        std::mem::take(&mut *self.events.lock().unwrap())
    }
    pub fn events(&self) -> Vec<Event> {
        self.events.lock().unwrap().clone()
    }
}

#[derive(Clone)]
pub struct NodeAddr {
    pub url: Url,
    pub connect: tokio::sync::mpsc::UnboundedSender<tokio::io::DuplexStream>,
    pub max_message: usize,
    /// set when the node can be cut off: connections run through copying tasks
    pub cut: Option<Arc<Cut>>,
    /// background work of the connections made so far, to any node
    pub background: Arc<AtomicUsize>,
}

/// The connections to a node, to cut them.
#[derive(Debug, Default)]
pub struct Cut {
    down: AtomicBool,
    /// who connected
    links: Mutex<Vec<(i32, tokio::task::AbortHandle)>>,
}

impl Cut {
    /// The node is gone: all its connections are closed and no new ones are accepted.
    pub fn cut(&self) {
        self.down.store(true, Ordering::SeqCst);
        self.links.lock().unwrap().drain(..).for_each(|l| l.1.abort());
    }
    /// Only the present connections of one caller break.
    pub fn reset_from(&self, origin: i32) {
        self.links.lock().unwrap().iter().filter(|l| l.0 == origin).for_each(|l| l.1.abort());
    }
    /// Only the present connections break.
    pub fn reset(&self) {
        self.links.lock().unwrap().drain(..).for_each(|l| l.1.abort());
    }
}

/// Resolver used by one caller (coordinator or worker); connections are per caller.
#[derive(Clone)]
pub struct Resolver {
    pub origin: i32,
    pub shared: Arc<Shared>,
    pub nodes: Arc<Vec<NodeAddr>>,
    pub channels: Arc<Mutex<std::collections::HashMap<String, grpc::BoxCloneSyncChannel>>>,
}

impl Resolver {
    pub fn new(origin: i32, shared: Arc<Shared>, nodes: Arc<Vec<NodeAddr>>) -> Self {
        Self { origin, shared, nodes, channels: Default::default() }
    }
    pub fn channel(&self, url: &Url) -> Option<grpc::BoxCloneSyncChannel> {
        let mut m = self.channels.lock().unwrap();
        if let Some(c) = m.get(url.as_str()) {
            return Some(c.clone());
        }
        let node = self.nodes.iter().find(|n| &n.url == url)?.clone();
        let ch = raw_channel_from(&node, self.origin);
        let ch = grpc::BoxCloneSyncChannel::new(ch);
        m.insert(url.to_string(), ch.clone());
        Some(ch)
    }
}

pub fn raw_channel(node: &NodeAddr) -> tonic::transport::Channel {
    raw_channel_from(node, COORD)
}

fn raw_channel_from(node: &NodeAddr, origin: i32) -> tonic::transport::Channel {
    let connect = node.connect.clone();
    let cut = node.cut.clone();
    let background = Arc::clone(&node.background);
    background.fetch_add(1, Ordering::SeqCst);
    Endpoint::try_from("http://localhost:1").unwrap().connect_with_connector_lazy(tower::service_fn(move |_| {
        background.fetch_add(3, Ordering::SeqCst);
        let (client, mut near) = tokio::io::duplex(256 * 1024);
        let ok = match &cut {
            None => connect.send(near).is_ok(),
            Some(c) => {
                let (mut far, server) = tokio::io::duplex(16 * 1024);
                let link = tokio::spawn(async move {
                    let _ = tokio::io::copy_bidirectional(&mut near, &mut far).await;
                });
                c.links.lock().unwrap().push((origin, link.abort_handle()));
                !c.down.load(Ordering::SeqCst) && connect.send(server).is_ok()
            }
        };
        async move {
            if ok {
                Ok::<_, std::io::Error>(TokioIo::new(client))
            } else {
                Err(std::io::Error::new(std::io::ErrorKind::ConnectionRefused, "worker is down"))
            }
        }
    }))
}

#[async_trait]
impl ChannelResolver for Resolver {
    async fn get_worker_client_for_url(&self, url: &Url) -> Result<Box<dyn WorkerChannel>, DataFusionError> {
        let Some(ch) = self.channel(url) else {
            self.shared.unknown_urls.lock().unwrap().push(url.to_string());
            return Err(DataFusionError::Execution(format!("no such worker {url}")));
        };
        let inner = grpc::create_worker_client(ch);
        Ok(Box::new(RecChannel { inner, origin: self.origin, target: url.clone(), shared: Arc::clone(&self.shared) }))
    }
}

pub struct RecChannel {
    pub inner: Box<dyn WorkerChannel>,
    pub origin: i32,
    pub target: Url,
    pub shared: Arc<Shared>,
}

fn head_name(h: &ProducerHead) -> &'static str {
    match h {
        ProducerHead::None => "none",
        ProducerHead::BroadcastExec { .. } => "broadcast",
        ProducerHead::RepartitionExec { .. } => "repartition",
    }
}

#[async_trait]
impl WorkerChannel for RecChannel {
    async fn coordinator_channel(
        &mut self,
        headers: HeaderMap,
        req: SetPlanRequest,
        c2w: BoxStream<'static, CoordinatorToWorkerMsg>,
        metrics: ExecutionPlanMetricsSet,
        ctx: &Arc<TaskContext>,
    ) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
        let sh = Arc::clone(&self.shared);
        let n = sh.setplans.fetch_add(1, Ordering::SeqCst);
        let key = req.task_key;
        let plan = if sh.keep_plans.load(Ordering::SeqCst) {
            match &req.plan {
                datafusion_distributed::MaybeEncoded::Decoded(p) => Some(Arc::clone(p)),
                _ => None,
            }
        } else {
            None
        };
        sh.log(Event::SetPlan {
            origin: self.origin,
            target: self.target.clone(),
            key,
            task_count: req.task_count,
            declared_url: req.target_worker_url.clone(),
            plan,
            feeds: req.work_unit_feed_declarations.len(),
            headers: headers.clone(),
        });
        let faults = sh.faults.lock().unwrap().clone();
        for f in &faults {
            match f {
                NetFault::SetPlan(i, m) if *i == n => {
                    sh.faults_hit.fetch_add(1, Ordering::SeqCst);
                    return Err(DataFusionError::Execution(m.clone()));
                }
                NetFault::DelaySetPlan(i, ms) if *i == n => tokio::time::sleep(Duration::from_millis(*ms)).await,
                _ => {}
            }
        }
        let r = self.inner.coordinator_channel(headers, req, c2w, metrics, ctx).await;
        sh.log(Event::SetPlanDone { key, ok: r.is_ok() });
        let s = r?;
        Ok(s.inspect(move |m| {
            if let Ok(WorkerToCoordinatorMsg::TaskMetrics(tm)) = m {
                let rows = tm.pre_order_plan_metrics.iter().map(|m| m.output_rows()).collect();
                sh.log(Event::Metrics { key, rows });
            }
        })
        .boxed())
    }

    async fn execute_task(
        &mut self,
        headers: HeaderMap,
        req: ExecuteTaskRequest,
        metrics: ExecutionPlanMetricsSet,
        ctx: &Arc<TaskContext>,
    ) -> Result<Vec<BoxStream<'static, Result<RecordBatch>>>> {
        let sh = Arc::clone(&self.shared);
        let n = sh.execs.fetch_add(1, Ordering::SeqCst);
        let key = req.task_key;
        sh.log(Event::Exec {
            origin: self.origin,
            target: self.target.clone(),
            key,
            start: req.target_partition_start,
            end: req.target_partition_end,
            head: head_name(&req.producer_head),
            headers: headers.clone(),
        });
        let faults = sh.faults.lock().unwrap().clone();
        let mut cut = None;
        for f in &faults {
            match f {
                NetFault::Exec(i, m) if *i == n => {
                    sh.faults_hit.fetch_add(1, Ordering::SeqCst);
                    return Err(DataFusionError::Execution(m.clone()));
                }
                NetFault::DelayExec(i, ms) if *i == n => tokio::time::sleep(Duration::from_millis(*ms)).await,
                NetFault::ExecStream(i, k, m) if *i == n => cut = Some((*k, m.clone())),
                _ => {}
            }
        }
        let r = self.inner.execute_task(headers, req, metrics, ctx).await;
        sh.log(Event::ExecDone { key, ok: r.is_ok() });
        let streams = r?;
        let mut out = vec![];
        for (i, s) in streams.into_iter().enumerate() {
            let sh2 = Arc::clone(&sh);
            let s = s
                .inspect(move |b| {
                    if let Ok(b) = b {
                        sh2.batches.fetch_add(1, Ordering::SeqCst);
                        sh2.rows.fetch_add(b.num_rows(), Ordering::SeqCst);
                    }
                })
                .boxed();
            match (&cut, i) {
                (Some((k, m)), 0) => {
                    let m = m.clone();
                    let sh3 = Arc::clone(&sh);
                    let err = futures::stream::once(async move {
                        sh3.faults_hit.fetch_add(1, Ordering::SeqCst);
                        Err(DataFusionError::Execution(m))
                    });
                    out.push(s.take(*k).chain(err).boxed())
                }
                _ => out.push(s),
            }
        }
        Ok(out)
    }

    async fn get_worker_info(&mut self, r: GetWorkerInfoRequest) -> Result<GetWorkerInfoResponse> {
        self.shared.log(Event::Info { target: self.target.clone() });
        self.inner.get_worker_info(r).await
    }
}

#[derive(Debug)]
pub struct FixedPlanner(pub Arc<dyn ExecutionPlan>);

#[async_trait]
impl datafusion::execution::context::QueryPlanner for FixedPlanner {
    async fn create_physical_plan(
        &self,
        _: &datafusion::logical_expr::LogicalPlan,
        _: &dyn datafusion::catalog::Session,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::clone(&self.0))
    }
}

/// A resolver for the observability service only.
struct Members(std::result::Result<Vec<Url>, String>);
impl datafusion_distributed::WorkerResolver for Members {
    fn get_urls(&self) -> Result<Vec<Url>> {
        self.0.clone().map_err(DataFusionError::Execution)
    }
}

pub struct Urls(pub Vec<Url>);
impl WorkerResolver for Urls {
    fn get_urls(&self) -> Result<Vec<Url>, DataFusionError> {
        Ok(self.0.clone())
    }
}

pub type Customize = Arc<dyn Fn(i32, &WorkerQueryContext, SessionStateBuilder) -> Result<SessionStateBuilder> + Send + Sync>;
pub type CustomizeBuilder = Arc<dyn Fn(i32, HeaderMap, SessionStateBuilder) -> Result<SessionStateBuilder> + Send + Sync>;

#[derive(Clone)]
pub struct NodeHandle {
    pub url: Url,
    pub worker: Worker,
    pub runtime: Arc<RuntimeEnv>,
    pub pool: Arc<PeakPool>,
    pub addr: NodeAddr,
}

pub struct Cluster {
    pub nodes: Vec<NodeHandle>,
    pub addrs: Arc<Vec<NodeAddr>>,
    pub shared: Arc<Shared>,
    pub coord_rt: Arc<RuntimeEnv>,
    pub coord_pool: Arc<PeakPool>,
    pub resolver: Resolver,
    servers: Vec<tokio::task::JoinHandle<()>>,
}

#[derive(Clone, Default)]
pub struct ClusterCfg {
    pub workers: usize,
    pub customize: Option<CustomizeBuilder>,
    pub versions: Vec<String>,
    pub max_message: Option<usize>,
    /// also serve the observability service, which looks at the whole system and is slow to start
    pub observe: bool,
    /// the cluster as the observability service resolves it (default: all nodes)
    pub members: Option<std::result::Result<Vec<Url>, String>>,
    /// nodes can be cut off
    pub cuttable: bool,
}

pub fn node_url(i: usize) -> Url {
    Url::parse(&format!("http://worker-{i}:5{i:04}")).unwrap()
}

impl Cluster {
    /// Must be called inside a runtime.
    pub fn start(cfg: ClusterCfg) -> Self {
        let shared = Arc::new(Shared::default());
        let mut rxs = vec![];
        let mut addrs = vec![];
        let background: Arc<AtomicUsize> = Default::default();
        for i in 0..cfg.workers {
            let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
            rxs.push(rx);
            addrs.push(NodeAddr { url: node_url(i), connect: tx, max_message: usize::MAX, cut: cfg.cuttable.then(Default::default), background: Arc::clone(&background) });
        }
        let addrs = Arc::new(addrs);
        let mut nodes = vec![];
        let mut servers = vec![];
        for (i, rx) in rxs.into_iter().enumerate() {
            let (rt, pool) = runtime();
            let resolver = Resolver::new(i as i32, Arc::clone(&shared), Arc::clone(&addrs));
            let customize = cfg.customize.clone();
            let builder = move |ctx: WorkerQueryContext| {
                let resolver = resolver.clone();
                let customize = customize.clone();
                async move {
                    let headers = ctx.headers;
                    let mut b = ctx.builder;
                    let c = b.config().get_or_insert_with(SessionConfig::default);
                    c.set_extension(Arc::new(NodeTag(i as i32)));
                    let mut b = b.with_distributed_user_codec(VCodec).with_distributed_channel_resolver(resolver);
                    if let Some(f) = &customize {
                        b = f(i as i32, headers, b)?;
                    }
                    Ok::<SessionState, DataFusionError>(b.build())
                }
            };
            let mut worker = Worker::from_session_builder(builder).with_runtime_env(Arc::clone(&rt));
            if let Some(v) = cfg.versions.get(i) {
                worker = worker.with_version(v.clone());
            }
            if let Some(m) = cfg.max_message {
                worker = worker.with_max_message_size(m);
            }
            let w = worker.clone();
            let members = Members(cfg.members.clone().unwrap_or_else(|| Ok(addrs.iter().map(|a| a.url.clone()).collect())));
            servers.push(tokio::spawn(async move {
                let incoming = tokio_stream::wrappers::UnboundedReceiverStream::new(rx).map(Ok::<_, std::io::Error>);
                let obs = cfg.observe.then(|| w.with_observability_service(Arc::new(members)));
                // the server is the user's: by default it closes a connection that had 20 requests
                // cancelled before they were looked at, which an abandoned query can cause
                let _ = Server::builder().http2_max_pending_accept_reset_streams(Some(100000)).add_service(w.into_worker_server()).add_optional_service(obs).serve_with_incoming(incoming).await;
            }));
            nodes.push(NodeHandle { url: addrs[i].url.clone(), worker, runtime: rt, pool, addr: addrs[i].clone() });
        }
        STARTED.with_borrow_mut(|s| s.extend(nodes.iter().map(|n| n.worker.clone())));
        let (coord_rt, coord_pool) = runtime();
        let resolver = Resolver::new(COORD, Arc::clone(&shared), Arc::clone(&addrs));
        Self { nodes, addrs, shared, coord_rt, coord_pool, resolver, servers }
    }

    pub fn urls(&self) -> Vec<Url> {
        self.nodes.iter().map(|n| n.url.clone()).collect()
    }

    /// State builder of a querying session with everything but user-specific parts.
    pub fn session_builder(&self, o: &Opts) -> SessionStateBuilder {
        self.session_builder_with(o, None)
    }

    /// With `plan`, every statement of the session is planned as that physical plan, and then
    /// handed to the distributed planner.
    pub fn session_builder_with(&self, o: &Opts, plan: Option<Arc<dyn ExecutionPlan>>) -> SessionStateBuilder {
        let mut cfg = o.df_config();
        cfg.set_extension(Arc::new(NodeTag(COORD)));
        let b = SessionStateBuilder::new()
            .with_default_features()
            .with_config(cfg)
            .with_runtime_env(Arc::clone(&self.coord_rt));
        let b = match plan {
            Some(p) => b.with_query_planner(Arc::new(FixedPlanner(p))),
            None => b,
        };
        let b = b
            .with_distributed_planner()
            .with_distributed_worker_resolver(Urls(self.urls()))
            .with_distributed_channel_resolver(self.resolver.clone())
            .with_distributed_user_codec(VCodec)
            .with_distributed_desired_task_count_handler(desired_task_count)
            .with_distributed_scale_up_leaf_node_handler(scale_up);
        o.apply(b, self)
    }

    pub fn session(&self, o: &Opts) -> SessionContext {
        SessionContext::new_with_state(self.session_builder(o).build())
    }

    /// A session whose every statement runs `plan`, and the distributed form of that plan.
    pub async fn place(&self, o: &Opts, plan: Arc<dyn ExecutionPlan>) -> Result<(SessionContext, Arc<dyn ExecutionPlan>)> {
        let ctx = SessionContext::new_with_state(self.session_builder_with(o, Some(plan)).build());
        let p = ctx.sql("SELECT 1").await?.create_physical_plan().await?;
        Ok((ctx, p))
    }

    pub async fn tasks_running(&self) -> Vec<usize> {
        let mut v = vec![];
        for n in &self.nodes {
            v.push(n.worker.tasks_running().await);
        }
        v
    }
}

impl Drop for Cluster {
    fn drop(&mut self) {
        for s in &self.servers {
            s.abort();
        }
    }
}

/// Options of a querying session.
#[derive(Clone, Debug)]
pub struct Opts {
    pub target_partitions: usize,
    pub batch_size: usize,
    pub max_tasks: usize,
    pub card_factor: f64,
    pub bytes_per_partition: usize,
    pub metrics: bool,
    pub isolator: bool,
    pub broadcast: bool,
    pub compression: u8,
    pub shuffle_batch: usize,
    pub partial_reduce: bool,
    pub budget: usize,
    pub dynamic: Option<usize>,
    pub local: Option<usize>,
    pub df: Vec<(String, String)>,
}

impl Default for Opts {
    fn default() -> Self {
        Self {
            target_partitions: 2,
            batch_size: 8192,
            max_tasks: 0,
            card_factor: 1.0,
            bytes_per_partition: 1,
            metrics: true,
            isolator: true,
            broadcast: true,
            compression: 1,
            shuffle_batch: 0,
            partial_reduce: false,
            budget: 64 * 1024 * 1024,
            dynamic: None,
            local: None,
            df: vec![],
        }
    }
}

impl Opts {
    pub fn generate(t: &mut Tape, workers: usize) -> Self {
        let mut o = Opts {
            target_partitions: [2, 3, 1, 4, 5, 6][t.weighted(&[4, 4, 2, 3, 1, 1])],
            batch_size: [8192, 1, 2, 3, 7, 16, 64][t.weighted(&[4, 1, 1, 2, 2, 2, 2])],
            max_tasks: [0, 1, 2, 3, 4, 8][t.weighted(&[8, 1, 2, 2, 1, 1])],
            card_factor: [1.0, 1.5, 2.0, 3.5, 1.1][t.weighted(&[4, 3, 2, 1, 1])],
            bytes_per_partition: [1, 100, 1000, 16 * 1024 * 1024][t.weighted(&[5, 2, 2, 1])],
            metrics: !t.chance(1, 4),
            isolator: !t.chance(1, 3),
            broadcast: !t.chance(1, 3),
            compression: [1, 0, 2][t.weighted(&[3, 2, 1])],
            shuffle_batch: [0, 1, 3, 10, 1000][t.weighted(&[5, 1, 2, 2, 1])],
            partial_reduce: t.chance(1, 3),
            budget: [64 * 1024 * 1024, 1, 100, 2000][t.weighted(&[5, 1, 1, 1])],
            dynamic: None,
            local: if t.chance(1, 4) { Some(t.below(workers)) } else { None },
            df: vec![],
        };
        macro_rules! flag {
            ($n:expr, $d:expr, $k:expr) => {
                if t.chance($n, $d) {
                    o.df.push(($k.0.to_string(), $k.1.to_string()));
                }
            };
        }
        match t.weighted(&[3, 4, 2]) {
            0 => {}
            // partitioned joins
            1 => {
                o.df.push(("datafusion.optimizer.hash_join_single_partition_threshold".into(), "0".into()));
                o.df.push(("datafusion.optimizer.hash_join_single_partition_threshold_rows".into(), "0".into()));
            }
            // broadcast joins
            _ => {
                o.df.push(("datafusion.optimizer.hash_join_single_partition_threshold".into(), "100000000".into()));
                o.df.push(("datafusion.optimizer.hash_join_single_partition_threshold_rows".into(), "100000000".into()));
            }
        }
        flag!(1, 5, ("datafusion.optimizer.prefer_hash_join", "false"));
        flag!(1, 6, ("datafusion.optimizer.repartition_joins", "false"));
        flag!(1, 6, ("datafusion.optimizer.repartition_aggregations", "false"));
        flag!(1, 6, ("datafusion.optimizer.repartition_windows", "false"));
        flag!(1, 6, ("datafusion.optimizer.repartition_sorts", "false"));
        flag!(1, 4, ("datafusion.optimizer.enable_round_robin_repartition", "false"));
        flag!(1, 4, ("datafusion.optimizer.prefer_existing_sort", "true"));
        flag!(1, 6, ("datafusion.optimizer.prefer_existing_union", "true"));
        flag!(1, 4, ("datafusion.optimizer.enable_dynamic_filter_pushdown", "false"));
        flag!(1, 4, ("datafusion.optimizer.enable_topk_aggregation", "false"));
        flag!(1, 6, ("datafusion.optimizer.join_reordering", "false"));
        flag!(1, 4, ("datafusion.execution.skip_partial_aggregation_probe_rows_threshold", "1"));
        flag!(1, 4, ("datafusion.execution.skip_partial_aggregation_probe_ratio_threshold", "0.01"));
        o
    }

    pub fn df_config(&self) -> SessionConfig {
        let mut c = SessionConfig::new().with_target_partitions(self.target_partitions).with_batch_size(self.batch_size);
        for (k, v) in &self.df {
            // options that this DataFusion version does not know are left out
            let _ = c.options_mut().set(k, v);
        }
        c
    }

    pub fn apply(&self, b: SessionStateBuilder, cluster: &Cluster) -> SessionStateBuilder {
        let comp = match self.compression {
            0 => None,
            1 => Some(CompressionType::LZ4_FRAME),
            _ => Some(CompressionType::ZSTD),
        };
        let f = |b: SessionStateBuilder| -> Result<SessionStateBuilder> {
            let mut b = b
                .with_distributed_file_scan_config_bytes_per_partition(self.bytes_per_partition)?
                .with_distributed_cardinality_effect_task_scale_factor(self.card_factor)?
                .with_distributed_metrics_collection(self.metrics)?
                .with_distributed_children_isolator_unions(self.isolator)?
                .with_distributed_broadcast_joins(self.broadcast)?
                .with_distributed_compression(comp)?
                .with_distributed_shuffle_batch_size(self.shuffle_batch)?
                .with_distributed_max_tasks_per_stage(self.max_tasks)?
                .with_distributed_partial_reduce(self.partial_reduce)?
                .with_distributed_worker_connection_buffer_budget_bytes(self.budget)?;
            if let Some(d) = self.dynamic {
                b = b.with_distributed_dynamic_task_count(true)?.with_distributed_dynamic_bytes_per_partition(d)?;
            }
            if let Some(i) = self.local
                && let Some(n) = cluster.nodes.get(i)
            {
                b = b.with_distributed_local_worker_context(n.worker.to_local_worker_context(n.url.clone()));
            }
            Ok(b)
        };
        f(b).expect("distributed options")
    }
}

/// Outcome of a case future.
pub enum Ran<T> {
    Done(T),
    Hung { idle: bool },
}

/// Runs a case future on a fresh runtime with a watchdog. `threads` = 0 gives a current-thread runtime.
thread_local! {
    static STARTED: std::cell::RefCell<Vec<Worker>> = const { std::cell::RefCell::new(vec![]) };
}

/// A worker's map of tasks refers back to itself through the last tasks it dropped until its pending
/// maintenance is done; without this every case would leak its runtime.
pub async fn settle() {
    let workers = STARTED.take();
    for _ in 0..3 {
        let mut n = 0;
        for w in &workers {
            n += w.tasks_running().await;
        }
        if n == 0 {
            break;
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
}

pub fn run_async<T, F: std::future::Future<Output = T>>(threads: usize, limit: Duration, f: F) -> Ran<T> {
    let rt = if threads == 0 {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build().unwrap()
    };
    let r = rt.block_on(async {
        let mut f = Box::pin(f);
        let r = match tokio::time::timeout(limit, &mut f).await {
            Ok(v) => Ran::Done(v),
            Err(_) => {
                let c0 = crate::runner::cpu_time();
                if let Ok(v) = tokio::time::timeout(Duration::from_secs(3), &mut f).await {
                    Ran::Done(v)
                } else {
                    Ran::Hung { idle: crate::runner::cpu_time() - c0 < Duration::from_millis(600) }
                }
            }
        };
        drop(f);
        let _ = tokio::time::timeout(Duration::from_secs(1), settle()).await;
        r
    });
    rt.shutdown_timeout(Duration::from_millis(300));
    if std::env::var_os("VP_FDS").is_some() {
        eprintln!("FDS {}", std::fs::read_dir("/proc/self/fd").unwrap().count());
    }
    r
}

pub fn err_text(e: &DataFusionError) -> String {
    e.to_string()
}

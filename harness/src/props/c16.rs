//! C16: a worker answers every request from the plan of that very task, or rejects it cleanly.
use crate::cluster::*;
use crate::data::*;
use crate::place::*;
use crate::probe::*;
use crate::runner::{Info, Part, Property, Res};
use crate::tape::Tape;
use bytes::{Buf, BufMut, Bytes};
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::{DataFusionError, Result};
use datafusion::execution::TaskContext;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties, Partitioning};
use datafusion_distributed::{
    ChannelResolver, CoordinatorToWorkerMsg, ExecuteTaskRequest, MaybeEncoded, ProducerHead, SetPlanRequest, TaskKey, Worker,
    WorkerToCoordinatorMsg,
};
use futures::StreamExt;
use futures::stream::BoxStream;
use http::HeaderMap;
use std::ops::Range;
use std::sync::Arc;
use std::time::Duration;
use tokio::time::Instant;
use uuid::Uuid;

/// Like `run_async` on one thread, with a clock that only moves on when nothing else can happen.
pub fn paused<F: std::future::Future<Output = Res>>(desc: &str, f: F) -> Res {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let r = rt.block_on(async {
        let r = match tokio::time::timeout(Duration::from_secs(3600), f).await {
            Ok(r) => r,
            Err(_) => Res::Hang { desc: desc.to_string(), idle: true },
        };
        let _ = tokio::time::timeout(Duration::from_secs(1), settle()).await;
        r
    });
    rt.shutdown_timeout(Duration::from_millis(300));
    r
}

#[derive(Clone)]
pub struct Client {
    pub cluster: Arc<Cluster>,
    /// without the transport
    pub direct: Option<Worker>,
    pub ctx: Arc<TaskContext>,
}

pub type Set = (tokio::sync::mpsc::UnboundedSender<CoordinatorToWorkerMsg>, BoxStream<'static, Result<WorkerToCoordinatorMsg>>);
pub type Parts = Vec<BoxStream<'static, Result<RecordBatch>>>;

impl Client {
    pub async fn set(&self, key: TaskKey, tasks: usize, plan: MaybeEncoded<Arc<dyn ExecutionPlan>>, headers: HeaderMap) -> Result<Set> {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        let rx = tokio_stream::wrappers::UnboundedReceiverStream::new(rx);
        let req = SetPlanRequest {
            task_key: key,
            task_count: tasks,
            plan,
            work_unit_feed_declarations: vec![],
            target_worker_url: node_url(0),
            query_start_time_ns: 1,
        };
        let s = match &self.direct {
            Some(w) => w.coordinator_channel(headers, req, rx.map(Ok).boxed()).await?,
            None => {
                let mut ch = self.cluster.resolver.get_worker_client_for_url(&node_url(0)).await?;
                ch.coordinator_channel(headers, req, rx.boxed(), ExecutionPlanMetricsSet::new(), &self.ctx).await?
            }
        };
        Ok((tx, s))
    }
    pub async fn exec(&self, key: TaskKey, range: Range<usize>, head: ProducerHead) -> Result<Parts> {
        let req = ExecuteTaskRequest { task_key: key, target_partition_start: range.start, target_partition_end: range.end, producer_head: head };
        match &self.direct {
            Some(w) => Ok(w.execute_task(req).await?.0.into_iter().map(|s| s.boxed()).collect()),
            None => {
                let mut ch = self.cluster.resolver.get_worker_client_for_url(&node_url(0)).await?;
                ch.execute_task(HeaderMap::new(), req, ExecutionPlanMetricsSet::new(), &self.ctx).await
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Head {
    None,
    Hash(usize),
    Fan(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Install {
    Good,
    /// a second plan comes later
    Twice,
    /// two plans come at once
    Race,
    Undecodable,
    BadHeader,
    Never,
}

#[derive(Clone, Debug)]
struct Fetch {
    range: Range<usize>,
    early: bool,
    /// 0 all, 1 only the first stream, 2 nothing
    read: usize,
    valid: bool,
    pause: usize,
}

#[derive(Clone, Debug)]
struct Scenario {
    query: usize,
    stage: usize,
    task: usize,
    tasks: usize,
    parts: usize,
    head: Head,
    install: Install,
    /// before the plan is installed
    wait_ms: u64,
    fetches: Vec<Fetch>,
    metrics: bool,
    late: bool,
    together: bool,
}

fn scenario(t: &mut Tape, direct: bool) -> Scenario {
    let parts = t.range(1, 4);
    let head = match t.weighted(&[3, 2, 2]) {
        0 => Head::None,
        1 => Head::Hash(t.range(1, 6)),
        _ => Head::Fan(t.range(1, 3)),
    };
    let total = match head {
        Head::None => parts,
        Head::Hash(n) => n,
        Head::Fan(n) => parts * n,
    };
    let install = [Install::Good, Install::Twice, Install::Race, Install::Undecodable, Install::BadHeader, Install::Never][t.weighted(&[8, 2, 2, 1, 1, 1])];
    let mut fetches = vec![];
    let mut from = 0;
    for _ in 0..t.range(1, 4) {
        // partitions below a head that splits its input can be taken once
        let range = match head {
            Head::None => {
                let a = t.below(parts + 1);
                a..t.range(a, parts)
            }
            _ => {
                let a = t.range(from, total);
                let b = t.range(a, total);
                from = b;
                a..b
            }
        };
        fetches.push(Fetch { range, early: t.chance(1, 3), read: t.weighted(&[5, 1, 1]), valid: true, pause: t.below(4) });
    }
    for _ in 0..t.weighted(&[3, 2, 1]) {
        let range = match t.weighted(&[2, 2, 1, 1, 1]) {
            0 => 0..total + t.range(1, 3),
            1 => total..total + 1,
            2 => t.range(1, total + 1)..0,
            3 => 0..if direct { usize::MAX } else { 3000 },
            _ => usize::MAX - 1..usize::MAX,
        };
        let at = t.below(fetches.len() + 1);
        fetches.insert(at, Fetch { range, early: t.chance(1, 4), read: 0, valid: false, pause: t.below(3) });
    }
    let tasks = t.range(2, 4);
    Scenario {
        query: t.below(2),
        stage: t.range(0, 2),
        task: t.below(tasks),
        tasks,
        parts,
        head,
        install,
        wait_ms: [0, 5, 3000, 12000][t.weighted(&[4, 2, 2, 1])],
        fetches,
        metrics: !t.chance(1, 4),
        late: t.chance(1, 4),
        together: t.chance(1, 2),
    }
}

fn producer_head(h: Head, plan: &Arc<dyn ExecutionPlan>) -> ProducerHead {
    match h {
        Head::None => ProducerHead::None,
        Head::Hash(n) => ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Decoded(Partitioning::Hash(vec![col(plan, 0)], n)) },
        Head::Fan(n) => ProducerHead::BroadcastExec { output_partitions: n * plan.output_partitioning().partition_count() },
    }
}

/// What each partition has to hold: in order where the head keeps it.
async fn reference(plan: Arc<dyn ExecutionPlan>, head: Head, ctx: &Arc<TaskContext>) -> Result<Vec<Vec<String>>> {
    let parts = plan.output_partitioning().partition_count();
    let (plan, n): (Arc<dyn ExecutionPlan>, usize) = match head {
        Head::None => (plan, parts),
        Head::Fan(f) => (plan, parts * f),
        Head::Hash(n) => {
            let k = vec![col(&plan, 0)];
            (Arc::new(RepartitionExec::try_new(plan, Partitioning::Hash(k, n))?), n)
        }
    };
    let mut out = vec![];
    let streams = (0..plan.output_partitioning().partition_count()).map(|p| plan.execute(p, Arc::clone(ctx))).collect::<Result<Vec<_>>>()?;
    for r in futures::future::join_all(streams.into_iter().map(datafusion::physical_plan::common::collect)).await {
        let mut r = rows(&r?);
        if matches!(head, Head::Hash(_)) {
            r.sort();
        }
        out.push(r);
    }
    Ok((0..n).map(|p| out[p % out.len()].clone()).collect())
}

enum Got {
    Error(String),
    Parts(Vec<Option<Vec<String>>>),
}

async fn fetch(c: Client, key: TaskKey, f: Fetch, head: ProducerHead, sort: bool) -> (Got, Duration) {
    let start = Instant::now();
    let r = async {
        let streams = c.exec(key, f.range.clone(), head).await?;
        let mut out: Vec<Option<Vec<String>>> = vec![];
        let all = streams.into_iter().enumerate().map(|(i, mut s)| async move {
            if f.read == 2 || (f.read == 1 && i > 0) {
                return Ok(None);
            }
            let mut v = vec![];
            while let Some(b) = s.next().await {
                v.push(b?);
                for _ in 0..f.pause {
                    tokio::task::yield_now().await;
                }
            }
            Ok::<_, DataFusionError>(Some(v))
        });
        for r in futures::future::join_all(all).await {
            out.push(r?.map(|v| {
                let mut v = rows(&v);
                if sort {
                    v.sort();
                }
                v
            }));
        }
        Ok::<_, DataFusionError>(out)
    };
    let g = match r.await {
        Ok(v) => Got::Parts(v),
        Err(e) => Got::Error(e.to_string()),
    };
    (g, start.elapsed())
}

fn headers(metrics: bool) -> HeaderMap {
    let mut h = HeaderMap::new();
    h.insert("x-datafusion-distributed-config-distributed.collect_metrics", metrics.to_string().parse().unwrap());
    h
}

/// A request nobody replies to within this time (of the paused clock) is a hang.
const BOUND: Duration = Duration::from_secs(60);

type Verdict = std::result::Result<(), (&'static str, String)>;

async fn yields(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

/// Plays one task's part. `plans[0]` is the one to install, `plans[1]` the impostor.
async fn play(c: Client, s: Scenario, key: TaskKey, plans: [Arc<dyn ExecutionPlan>; 2], logs: [Arc<ProbeLog>; 2], refs: [Vec<Vec<String>>; 2], delays: Vec<usize>) -> Verdict {
    let me = format!("query {} stage {} task {}", s.query, s.stage, s.task);
    let head = || producer_head(s.head, &plans[0]);
    let sort = matches!(s.head, Head::Hash(_));
    let spawn = |f: &Fetch| tokio::spawn(fetch(c.clone(), key, f.clone(), head(), sort));
    let mut pending = vec![];
    for f in s.fetches.iter().filter(|f| f.early) {
        pending.push((f.clone(), spawn(f), true));
        yields(delays[0]).await;
    }
    tokio::time::sleep(Duration::from_millis(s.wait_ms)).await;
    // the early ones gave up by now
    let missed = s.wait_ms > 10_000;
    let decoded = |i: usize| MaybeEncoded::Decoded(Arc::clone(&plans[i]));
    let mut opened: Vec<Set> = vec![];
    // which plan counts, if any
    let mut winner = None;
    match s.install {
        Install::Good | Install::Twice => match c.set(key, s.tasks, decoded(0), headers(s.metrics)).await {
            Ok(o) => {
                opened.push(o);
                winner = Some(0);
            }
            Err(e) => return Err(("install-fails", format!("installing the plan of {me} failed: {e}"))),
        },
        Install::Race => {
            let (a, b) = tokio::join!(c.set(key, s.tasks, decoded(0), headers(s.metrics)), async {
                yields(delays[1]).await;
                c.set(key, s.tasks, decoded(1), headers(s.metrics)).await
            });
            match (a, b) {
                (Ok(o), Err(_)) => {
                    opened.push(o);
                    winner = Some(0);
                }
                (Err(_), Ok(o)) => {
                    opened.push(o);
                    winner = Some(1);
                }
                (Ok(_), Ok(_)) => return Err(("two-plans", format!("two plans were accepted for {me}"))),
                (Err(a), Err(b)) => return Err(("install-fails", format!("both plans for {me} were refused: {a} / {b}"))),
            }
        }
        Install::Undecodable | Install::BadHeader => {
            let (p, h) = match s.install {
                Install::Undecodable => (MaybeEncoded::Encoded(vec![0xff, 0x00, 0x13, 0x37]), headers(s.metrics)),
                _ => {
                    let mut h = headers(s.metrics);
                    h.insert("x-datafusion-distributed-config-distributed.shuffle_batch_size", "many".parse().unwrap());
                    (decoded(0), h)
                }
            };
            if c.set(key, s.tasks, p, h).await.is_ok() {
                return Err(("bad-install-accepted", format!("{:?} for {me} was accepted", s.install)));
            }
        }
        Install::Never => {}
    }
    let rest: Vec<Fetch> = s.fetches.iter().filter(|f| !f.early).cloned().collect();
    for (i, f) in rest.iter().enumerate() {
        if s.install == Install::Twice && i == rest.len() / 2 && c.set(key, s.tasks, decoded(1), headers(s.metrics)).await.is_ok() {
            return Err(("two-plans", format!("a second plan was accepted for {me}")));
        }
        let h = spawn(f);
        if s.together {
            pending.push((f.clone(), h, false));
            yields(delays[2]).await;
        } else {
            let r = h.await;
            pending.push((f.clone(), tokio::spawn(async move { r.unwrap() }), false));
        }
    }
    for (f, h, early) in pending {
        let (got, took) = tokio::time::timeout(BOUND, h)
            .await
            .map_err(|_| ("hang", format!("{me}: request for {:?} not answered after {BOUND:?}", f.range)))?
            .map_err(|e| ("panic", e.to_string()))?;
        let _ = took;
        let ok = f.valid && !(early && missed);
        match (winner, ok, got) {
            (Some(w), true, Got::Parts(v)) => {
                if v.len() != f.range.len() {
                    return Err(("streams", format!("{me}: {} streams for {:?}", v.len(), f.range)));
                }
                for (p, r) in f.range.clone().zip(v) {
                    let Some(r) = r else { continue };
                    if r != refs[w][p] {
                        return Err(("wrong-data", format!("{me}: partition {p} of {:?} gave {r:?} instead of {:?}", f.range, refs[w][p])));
                    }
                }
            }
            (Some(_), true, Got::Error(e)) => return Err(("refused", format!("{me}: request for {:?} failed: {e}", f.range))),
            // nothing was asked for
            (_, _, Got::Parts(v)) if v.iter().all(|p| p.is_none()) => {}
            (w, _, Got::Parts(v)) => {
                return Err(("unfounded-answer", format!("{me}: request for {:?} (installed {w:?}, early {early}) answered with {v:?}", f.range)));
            }
            (_, _, Got::Error(_)) => {}
        }
    }
    // nothing of the other plan ever runs
    for (i, l) in logs.iter().enumerate() {
        let runs = l.runs();
        if winner != Some(i) && !runs.is_empty() {
            return Err(("foreign-plan-ran", format!("{me}: plan {i} ran although {winner:?} was accepted")));
        }
        for r in runs {
            if (r.task, r.tasks) != (s.task, s.tasks) {
                return Err(("task-context", format!("{me} of {} ran as task {} of {}", s.tasks, r.task, r.tasks)));
            }
        }
    }
    if let Some((tx, mut stream)) = opened.pop() {
        drop(tx);
        let mut metrics = vec![];
        let end = tokio::time::timeout(BOUND, async {
            while let Some(m) = stream.next().await {
                if let WorkerToCoordinatorMsg::TaskMetrics(m) = m? {
                    metrics.push(m.pre_order_plan_metrics.len());
                }
            }
            Ok::<_, DataFusionError>(())
        })
        .await;
        match end {
            Err(_) => return Err(("hang", format!("{me}: the coordinator's stream does not end"))),
            Ok(Err(e)) => return Err(("close", format!("{me}: the coordinator's stream fails: {e}"))),
            Ok(Ok(())) => {}
        }
        // those of the plan that was sent: the head that the worker puts on top of it is not in it
        let right = if s.metrics { metrics == [2] } else { metrics.is_empty() };
        if !right {
            return Err(("metrics", format!("{me}: metrics of {metrics:?} operators arrived, collected: {}", s.metrics)));
        }
        if s.late {
            tokio::time::sleep(Duration::from_millis(50)).await;
            let f = Fetch { range: 0..1, early: false, read: 0, valid: true, pause: 0 };
            match tokio::time::timeout(BOUND, fetch(c.clone(), key, f, head(), sort)).await {
                Err(_) => return Err(("hang", format!("{me}: request after the end not answered"))),
                Ok((Got::Parts(v), _)) => return Err(("unfounded-answer", format!("{me}: request after the end answered with {v:?}"))),
                Ok((Got::Error(_), _)) => {}
            }
        }
    }
    Ok(())
}

// ---- raw messages ----

#[derive(Clone, Default)]
struct Raw;
impl tonic::codec::Codec for Raw {
    type Encode = Bytes;
    type Decode = Bytes;
    type Encoder = Raw;
    type Decoder = Raw;
    fn encoder(&mut self) -> Raw {
        Raw
    }
    fn decoder(&mut self) -> Raw {
        Raw
    }
}
impl tonic::codec::Encoder for Raw {
    type Item = Bytes;
    type Error = tonic::Status;
    fn encode(&mut self, item: Bytes, dst: &mut tonic::codec::EncodeBuf<'_>) -> std::result::Result<(), tonic::Status> {
        dst.put(item);
        Ok(())
    }
}
impl tonic::codec::Decoder for Raw {
    type Item = Bytes;
    type Error = tonic::Status;
    fn decode(&mut self, src: &mut tonic::codec::DecodeBuf<'_>) -> std::result::Result<Option<Bytes>, tonic::Status> {
        Ok(Some(src.copy_to_bytes(src.remaining())))
    }
}

fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn num(field: u32, v: u64) -> Vec<u8> {
    let mut o = vec![];
    varint((field << 3) as u64, &mut o);
    varint(v, &mut o);
    o
}
fn len(field: u32, b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    varint((field << 3 | 2) as u64, &mut o);
    varint(b.len() as u64, &mut o);
    o.extend_from_slice(b);
    o
}
fn raw_key(t: &mut Tape, id: &Uuid) -> Vec<u8> {
    let b = id.as_bytes();
    let q = match t.weighted(&[4, 1, 1]) {
        0 => b.to_vec(),
        1 => b[..t.below(16)].to_vec(),
        _ => [b.as_slice(), &[1]].concat(),
    };
    [len(1, &q), num(2, t.below(3) as u64), num(3, [0, 1, u64::MAX][t.below(3)])].concat()
}

#[derive(Clone, Debug)]
struct Garbage {
    path: &'static str,
    messages: Vec<Bytes>,
    text: String,
}

/// Requests that cannot be carried out: malformed, or for tasks nobody ever installs.
fn garbage(t: &mut Tape, n: u128) -> Garbage {
    let id = Uuid::from_u128(0xdead_0000 + n);
    let noise = |t: &mut Tape| (0..t.range(1, 20)).map(|_| t.below(256) as u8).collect::<Vec<u8>>();
    let execute = t.bool();
    let kind = t.below(if execute { 6 } else { 9 });
    let text = format!("{} {kind}", if execute { "ExecuteTask" } else { "CoordinatorChannel" });
    if execute {
        let key = len(1, &raw_key(t, &id));
        let bounds = [num(2, [0, 1, u64::MAX][t.below(3)]), num(3, [1, 0, u64::MAX][t.below(3)])].concat();
        let m = match kind {
            0 => noise(t),
            1 => vec![],
            2 => [bounds, len(6, &[])].concat(),
            3 => [key, bounds].concat(),
            4 => [key, bounds, len(8, &len(1, &noise(t)))].concat(),
            _ => [key, bounds, len(7, &num(1, [0, u64::MAX][t.below(2)]))].concat(),
        };
        return Garbage { path: "/worker.WorkerService/ExecuteTask", messages: vec![Bytes::from(m)], text };
    }
    let key = len(1, &raw_key(t, &id));
    let url = |s: &str| len(5, s.as_bytes());
    let set = |parts: Vec<Vec<u8>>| Bytes::from(len(1, &parts.concat()));
    let decl = len(4, &[len(1, &id.as_bytes()[..7]), num(2, 1)].concat());
    let messages = match kind {
        0 => vec![],
        1 => vec![Bytes::from(noise(t))],
        2 => vec![Bytes::new()],
        3 => vec![Bytes::from(num(3, 1))],
        4 => vec![Bytes::from(len(2, &[]))],
        5 => vec![set(vec![num(2, 1), url("http://a")])],
        6 => vec![set(vec![key, num(2, [1, 0, u64::MAX][t.below(3)]), len(3, &noise(t)), url("http://a")])],
        7 => vec![set(vec![key, num(2, 1), url(["", "not a url", "http://"][t.below(3)])])],
        _ => vec![set(vec![key, num(2, 1), url("http://a"), decl])],
    };
    Garbage { path: "/worker.WorkerService/CoordinatorChannel", messages, text }
}

async fn send(cluster: Arc<Cluster>, g: Garbage) -> Verdict {
    let ch = cluster.resolver.channel(&node_url(0)).unwrap();
    let mut c = tonic::client::Grpc::new(ch);
    let r = tokio::time::timeout(BOUND, async {
        if c.ready().await.is_err() {
            return Err(("connection", "not ready".to_string()));
        }
        let path = http::uri::PathAndQuery::from_static(g.path);
        let body = futures::stream::iter(g.messages.clone());
        let s = match c.streaming(tonic::Request::new(body), path, Raw).await {
            Err(e) => return Ok(e.message().to_string()),
            Ok(s) => s,
        };
        let mut s = s.into_inner();
        loop {
            match s.message().await {
                Err(e) => return Ok(e.message().to_string()),
                Ok(Some(m)) => return Err(("garbage-answered", format!("{}: answered with a message of {} bytes", g.text, m.len()))),
                Ok(None) => return Err(("garbage-answered", format!("{}: answered without an error", g.text))),
            }
        }
    })
    .await;
    match r {
        Err(_) => Err(("hang", format!("{}: not answered", g.text))),
        Ok(Err(e)) => Err(e),
        Ok(Ok(_)) => Ok(()),
    }
}

fn requests(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let direct = t.chance(1, 4);
    let n = t.range(1, 5);
    let mut scen: Vec<Scenario> = vec![];
    for _ in 0..n {
        let s = scenario(t, direct);
        if !scen.iter().any(|o| (o.query, o.stage, o.task) == (s.query, s.stage, s.task)) {
            scen.push(s);
        }
    }
    let garb: Vec<(Garbage, usize)> = if direct { vec![] } else { (0..t.weighted(&[3, 3, 2, 1])).map(|i| (garbage(t, i as u128), t.below(8))).collect() };
    let tables: Vec<[Arc<TableData>; 2]> = (0..scen.len() + 1).map(|i| [id_table(t, 2 * i, 8, false), id_table(t, 2 * i + 1, 8, false)]).collect();
    let delays: Vec<Vec<usize>> = scen.iter().map(|_| (0..3).map(|_| t.below(6)).collect()).collect();
    let starts: Vec<usize> = scen.iter().map(|_| t.below(10)).collect();
    let desc = format!("direct={direct} {scen:#?} garbage={garb:?}");
    let mut info = Info { desc: desc.clone(), ..Default::default() };
    info.class(if direct { "direct" } else { "remote" });
    for s in &scen {
        info.class(format!("{:?}", s.install));
        info.class(match s.head {
            Head::None => "no-head",
            Head::Hash(_) => "repartition",
            Head::Fan(_) => "broadcast",
        });
        if s.fetches.iter().any(|f| f.early) {
            info.class("request-before-plan");
        }
        if s.fetches.iter().any(|f| !f.valid) {
            info.class("bad-range");
        }
    }
    for g in &garb {
        info.class(format!("garbage {}", g.0.text));
    }
    info.nontrivial = scen.len() > 1 || scen.iter().any(|s| s.install != Install::Good || s.fetches.iter().any(|f| f.early || !f.valid)) || !garb.is_empty();
    paused(&desc, async {
        let cluster = Arc::new(Cluster::start(ClusterCfg { workers: 1, ..Default::default() }));
        let session = cluster.session(&Opts::default());
        let client = Client { cluster: Arc::clone(&cluster), direct: direct.then(|| cluster.nodes[0].worker.clone()), ctx: session.task_ctx() };
        let key = |s: &Scenario| TaskKey { query_id: Uuid::from_u128(7 + s.query as u128), stage_id: s.stage, task_number: s.task };
        // a task of its own, half read before and read to the end after
        let open = TaskKey { query_id: Uuid::from_u128(99), stage_id: 1, task_number: 0 };
        let open_table = &tables[scen.len()][0];
        let open_ref = match reference(scan(open_table, 2), Head::None, &client.ctx).await {
            Ok(r) => r,
            Err(e) => return fail("reference", e.to_string(), &desc),
        };
        let held = match client.set(open, 1, MaybeEncoded::Decoded(scan(open_table, 2)), headers(true)).await {
            Ok(s) => s,
            Err(e) => return fail("install-fails", e.to_string(), &desc),
        };
        let mut streams = match client.exec(open, 0..2, ProducerHead::None).await {
            Ok(s) => s,
            Err(e) => return fail("refused", e.to_string(), &desc),
        };
        let mut got: Vec<Vec<RecordBatch>> = vec![vec![], vec![]];
        if let Some(b) = streams[0].next().await {
            match b {
                Ok(b) => got[0].push(b),
                Err(e) => return fail("refused", e.to_string(), &desc),
            }
        }
        let mut set = tokio::task::JoinSet::new();
        for (i, s) in scen.iter().enumerate() {
            let logs = [ProbeLog::plain(), ProbeLog::plain()];
            let plans = [0, 1].map(|j| probe(scan(&tables[i][j], s.parts), &logs[j]));
            let mut refs = vec![];
            for j in 0..2 {
                match reference(scan(&tables[i][j], s.parts), s.head, &client.ctx).await {
                    Ok(r) => refs.push(r),
                    Err(e) => return fail("reference", e.to_string(), &desc),
                }
            }
            let refs: [Vec<Vec<String>>; 2] = refs.try_into().unwrap();
            let (c, s, k, d, st) = (client.clone(), s.clone(), key(s), delays[i].clone(), starts[i]);
            set.spawn(async move {
                yields(st).await;
                play(c, s, k, plans, logs, refs, d).await
            });
        }
        for (g, y) in garb.iter().cloned() {
            let cl = Arc::clone(&cluster);
            set.spawn(async move {
                yields(y).await;
                send(cl, g).await
            });
        }
        while let Some(r) = set.join_next().await {
            match r {
                Ok(Ok(())) => {}
                Ok(Err((sig, msg))) => return fail(sig, msg, &desc),
                Err(e) => return fail("panic", e.to_string(), &desc),
            }
        }
        for (i, mut s) in streams.into_iter().enumerate() {
            while let Some(b) = s.next().await {
                match b {
                    Ok(b) => got[i].push(b),
                    Err(e) => return fail("bystander", format!("a task running meanwhile fails: {e}"), &desc),
                }
            }
            if rows(&got[i]) != open_ref[i] {
                return fail("bystander", format!("a task running meanwhile gave {:?} instead of {:?}", rows(&got[i]), open_ref[i]), &desc);
            }
        }
        drop(held);
        // the worker still serves others
        let s = Scenario {
            query: 100,
            stage: 0,
            task: 0,
            tasks: 2,
            parts: 2,
            head: Head::Hash(2),
            install: Install::Good,
            wait_ms: 0,
            fetches: vec![Fetch { range: 0..2, early: true, read: 0, valid: true, pause: 0 }],
            metrics: true,
            late: false,
            together: false,
        };
        let logs = [ProbeLog::plain(), ProbeLog::plain()];
        let last = &tables[scen.len()];
        let plans = [0, 1].map(|j| probe(scan(&last[j], s.parts), &logs[j]));
        let r = match reference(scan(&last[0], s.parts), s.head, &client.ctx).await {
            Ok(r) => r,
            Err(e) => return fail("reference", e.to_string(), &desc),
        };
        let k = key(&s);
        if let Err((sig, msg)) = play(client, s, k, plans, logs, [r.clone(), r], vec![0; 3]).await {
            return fail(sig, format!("afterwards: {msg}"), &desc);
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C16",
        rule: "several tasks, a request before its plan, a bad range, a second or unusable plan, or a malformed message",
        tape_len: 900,
        quick: 16000,
        thorough: 300_000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &[
            "time is tokio's paused clock: waiting costs nothing, and a request unanswered after 60 s of it is a hang",
            "heads that split their input (repartition, broadcast) are asked for each partition once, as by one consumer boundary",
            "malformed messages use task keys of their own, as a well-formed request with a bad head settles the plan of its task",
            "a feed declaration with an absurd partition count is not sent",
        ],
        parts: vec![Part { name: "requests", weight: 1, run: requests }],
    }
}

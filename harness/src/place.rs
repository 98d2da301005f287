//! Hand-made plans with user-placed network boundaries.
use crate::cluster::*;
use crate::data::*;
use crate::oracle::{Answer, run_plan};
use crate::probe::*;
use crate::props::qcase::panicked;
use crate::runner::Res;
use crate::scan::{Demand, VScan};
use crate::tape::Tape;
use datafusion::arrow::array::{ArrayRef, Int64Array};
use datafusion::arrow::compute::SortOptions;
use datafusion::arrow::datatypes::{DataType, Field, Schema};
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::Result;
use datafusion::physical_expr::PhysicalExpr;
use datafusion::physical_expr::expressions::{Column, binary, cast, lit};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::{ExecutionPlan, Partitioning};
use datafusion_distributed::NetworkShuffleExec;
use futures::FutureExt;
use std::collections::HashMap;
use std::sync::Arc;

/// A table whose last column `id` is unique over all the tables of a case.
pub fn id_table(t: &mut Tape, idx: usize, max_rows: usize, ordered: bool) -> Arc<TableData> {
    let domain = [4usize, 2, 10, 40, 1][t.weighted(&[4, 1, 3, 2, 1])];
    let nulls = [0usize, 1, 3][t.weighted(&[3, 3, 1])];
    let extra = [Ty::Str, Ty::Int, Ty::Date, Ty::Float, Ty::Bool][t.weighted(&[4, 1, 1, 1, 1])];
    let specs = vec![
        ColSpec { name: "k0".into(), ty: Ty::Int, domain, nulls },
        ColSpec { name: "k1".into(), ty: Ty::Int32, domain: 3, nulls },
        ColSpec { name: "k2".into(), ty: extra, domain: 14, nulls },
    ];
    let mut fields: Vec<Field> = schema_of(&specs).fields().iter().map(|f| f.as_ref().clone()).collect();
    fields.push(Field::new("id", DataType::Int64, false));
    let schema = Arc::new(Schema::new(fields));
    let nchunks = t.range(1, 6);
    let seed = t.raw();
    let max_batch = [4usize, 1, 1000, 10][t.weighted(&[3, 1, 2, 2])];
    let mut id = (idx as i64) * 1_000_000;
    let mut chunks = vec![];
    for c in 0..nchunks {
        let n = t.size(max_rows);
        let b = gen_batch(seed.wrapping_add((c as u32).wrapping_mul(7919)), &specs, n);
        let mut cols: Vec<ArrayRef> = b.columns().to_vec();
        cols.push(Arc::new((id..id + n as i64).collect::<Int64Array>()));
        id += n as i64;
        let b = RecordBatch::try_new(Arc::clone(&schema), cols).unwrap();
        chunks.push(split_batch(&b, max_batch));
    }
    let mut d = TableData::new(&format!("t{idx}"), schema, chunks);
    if ordered {
        d.ordering = vec![(3, SortOptions { descending: false, nulls_first: false })];
    }
    d.demand = Demand::Unspecified;
    d.ctx_mode = t.chance(1, 3);
    d.yield_every = [0, 1, 3][t.weighted(&[3, 1, 1])];
    d.build()
}

pub fn scan(d: &Arc<TableData>, partitions: usize) -> Arc<dyn ExecutionPlan> {
    let n = d.chunks.len();
    let parts = if d.ordering.is_empty() { partitions.max(1) } else { n.max(1) };
    let mut groups = vec![vec![]; parts];
    for c in 0..n {
        groups[c % parts].push(c);
    }
    Arc::new(VScan::new(Arc::clone(d), None, groups, vec![]))
}

pub fn col(p: &Arc<dyn ExecutionPlan>, i: usize) -> Arc<dyn PhysicalExpr> {
    Arc::new(Column::new(p.schema().field(i).name(), i))
}

/// Hash key expressions: 1 to 3 columns, sometimes computed.
pub fn keys(t: &mut Tape, p: &Arc<dyn ExecutionPlan>) -> (Vec<Arc<dyn PhysicalExpr>>, String) {
    let pick = t.weighted(&[4, 2, 2, 1, 1, 1]);
    let c = |i| col(p, i);
    let mut v: Vec<Arc<dyn PhysicalExpr>> = match pick {
        0 => vec![c(0)],
        1 => vec![c(2)],
        2 => vec![c(0), c(2)],
        3 => vec![c(1), c(0)],
        4 => vec![c(0), c(1), c(2)],
        _ => vec![c(3)],
    };
    if t.chance(1, 5) {
        let s = p.schema();
        v[0] = if s.field(0).name() == "k0" && pick == 0 {
            binary(c(0), datafusion::logical_expr::Operator::Modulo, lit(3i64), &s).unwrap()
        } else {
            cast(Arc::clone(&v[0]), &s, DataType::Utf8).unwrap()
        };
    }
    let text = v.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(",");
    (v, text)
}

/// A hash shuffle run by `tasks` producer tasks.
pub fn shuffle(input: Arc<dyn ExecutionPlan>, keys: Vec<Arc<dyn PhysicalExpr>>, parts: usize, tasks: usize) -> Result<Arc<dyn ExecutionPlan>> {
    let r = Arc::new(RepartitionExec::try_new(input, Partitioning::Hash(keys, parts))?);
    Ok(Arc::new(NetworkShuffleExec::try_new(r, tasks)?))
}

pub fn probe(input: Arc<dyn ExecutionPlan>, log: &Arc<ProbeLog>) -> Arc<dyn ExecutionPlan> {
    Arc::new(Probe::new(input, Arc::clone(log)))
}

/// Generated reading behaviour. `lossy` allows readers that leave rows unread. `sequenced` allows
/// partitions to be read one after the other: only meaningful at the last operator of a plan, as
/// operators above could be waiting for the partitions in another order.
pub fn gen_log(t: &mut Tape, tasks: usize, parts: usize, lossy: bool, sequenced: bool) -> Arc<ProbeLog> {
    let mut m = HashMap::new();
    let mode = t.weighted(&[5, 3, 2]);
    if mode > 0 {
        for i in 0..tasks {
            for p in 0..parts {
                let r = match t.weighted(&[5, 1, 1, if lossy { 2 } else { 0 }, if lossy { 1 } else { 0 }, if lossy { 1 } else { 0 }]) {
                    0 => Reader::All,
                    1 => Reader::SlowMs(t.range(1, 3) as u64),
                    2 => Reader::Yields(t.range(1, 5)),
                    3 => Reader::StopAfter(t.below(3)),
                    4 => Reader::Never,
                    _ => Reader::OpenDrop,
                };
                if r != Reader::All {
                    m.insert((i, p), r);
                }
            }
        }
    }
    let mut seq = vec![];
    if mode == 2 && sequenced {
        seq = (0..parts).collect();
        t.shuffle(&mut seq);
    }
    ProbeLog::new(m, seq)
}

pub fn log_text(l: &ProbeLog) -> String {
    let mut v: Vec<_> = l.readers.iter().collect();
    v.sort_by_key(|x| x.0);
    format!("readers={v:?} sequence={:?}", l.sequence)
}

/// Options that matter below a fixed plan.
pub fn gen_opts(t: &mut Tape, workers: usize) -> Opts {
    Opts {
        batch_size: [8192, 1, 2, 7, 64][t.weighted(&[4, 1, 2, 2, 2])],
        compression: [1, 0, 2][t.weighted(&[3, 2, 1])],
        shuffle_batch: [0, 1, 3, 10, 1000][t.weighted(&[5, 1, 2, 2, 1])],
        budget: [64 * 1024 * 1024, 1, 100, 2000][t.weighted(&[3, 2, 1, 1])],
        metrics: !t.chance(1, 3),
        local: if t.chance(1, 4) { Some(t.below(workers)) } else { None },
        ..Default::default()
    }
}

/// Places and runs a plan; a panic is an error.
pub async fn run_placed(cluster: &Cluster, o: &Opts, plan: Arc<dyn ExecutionPlan>) -> Result<(Answer, Arc<dyn ExecutionPlan>)> {
    std::panic::AssertUnwindSafe(async {
        let (ctx, plan) = cluster.place(o, plan).await?;
        let a = run_plan(&ctx, &plan).await?;
        Ok((a, plan))
    })
    .catch_unwind()
    .await
    .unwrap_or_else(|p| panicked(p))
}

/// Each (task, partition, chunk set) of a scan executed at most once, no chunk twice.
pub fn scanned_once(d: &TableData) -> std::result::Result<(), String> {
    let mut seen = HashMap::new();
    for e in d.execs.lock().unwrap().iter() {
        *seen.entry((e.task, e.partition)).or_insert(0) += 1;
    }
    match seen.iter().find(|x| *x.1 > 1) {
        None => Ok(()),
        Some((k, n)) => Err(format!("scan of {} executed {n} times for task {} partition {}", d.name, k.0, k.1)),
    }
}

pub fn fail(sig: &str, msg: impl Into<String>, desc: &str) -> Res {
    Res::Fail { sig: sig.into(), msg: msg.into(), desc: desc.into() }
}

/// Runs a case future under the watchdog.
pub fn guard<F: std::future::Future<Output = Res>>(threads: usize, desc: &str, f: F) -> Res {
    match run_async(threads, case_limit(), f) {
        Ran::Done(r) => r,
        Ran::Hung { idle } => Res::Hang { desc: desc.to_string(), idle },
    }
}

pub fn err_sig(e: &datafusion::common::DataFusionError) -> String {
    format!("error:{}", crate::props::qcase::sig_of_error(&e.to_string()))
}

/// Time after which a case that does not finish is looked at again, alone.
pub fn case_limit() -> std::time::Duration {
    let s = std::env::var("VP_LIMIT").ok().and_then(|v| v.parse().ok()).unwrap_or(30);
    std::time::Duration::from_secs(s)
}

/// A chain of stages over one scan: what the stages are, the plan, how often each row comes out.
pub struct Chain {
    pub plan: Arc<dyn ExecutionPlan>,
    pub text: String,
    pub tasks: Vec<usize>,
    pub times: usize,
}

/// Stages with generated task counts connected by generated boundaries; the last one has one task and
/// one partition. `wrap` is applied to the top of every stage (with its index and task count).
pub fn gen_chain(
    t: &mut Tape,
    input: Arc<dyn ExecutionPlan>,
    max_hops: usize,
    wrap: &mut dyn FnMut(&mut Tape, Arc<dyn ExecutionPlan>, usize, usize) -> Arc<dyn ExecutionPlan>,
) -> Chain {
    use datafusion::physical_plan::ExecutionPlanProperties;
    use datafusion_distributed::{BroadcastExec, NetworkBroadcastExec, NetworkCoalesceExec};
    let hops = t.range(1, max_hops);
    let mut tasks = vec![];
    for _ in 0..hops {
        tasks.push([2, 1, 3, 4][t.weighted(&[4, 2, 2, 1])]);
    }
    tasks.push(1);
    let mut plan = input;
    let mut text = String::new();
    let mut times = 1;
    for h in 0..hops {
        let (p, c) = (tasks[h], tasks[h + 1]);
        plan = wrap(t, plan, h, p);
        let parts = plan.output_partitioning().partition_count();
        let kind = if h + 1 == hops { 1 } else { t.weighted(&[4, 2, if parts < 12 { 2 } else { 0 }]) };
        plan = match kind {
            0 => {
                let n = t.range(1, 4);
                let (k, s) = keys(t, &plan);
                text += &format!(" -shuffle({s}) {p}x{parts} to {c}x{n}");
                shuffle(plan, k, n, p).unwrap()
            }
            1 => {
                text += &format!(" -coalesce {p}x{parts} to {c}");
                Arc::new(NetworkCoalesceExec::try_new(plan, p, c).unwrap())
            }
            _ => {
                times *= c;
                text += &format!(" -broadcast {p}x{parts} to {c}");
                Arc::new(NetworkBroadcastExec::try_new(Arc::new(BroadcastExec::new(plan, c)), p).unwrap())
            }
        };
    }
    plan = wrap(t, plan, hops, 1);
    plan = Arc::new(datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec::new(plan));
    Chain { plan, text, tasks, times }
}

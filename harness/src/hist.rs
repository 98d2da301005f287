//! Histories of queries on one cluster, ended in several ways.
use crate::cluster::*;
use crate::data::*;
use crate::oracle::*;
use crate::place::*;
use crate::props::qcase::*;
use crate::sql::{GenCfg, TableCfg};
use crate::tape::Tape;
use datafusion::common::{DataFusionError, Result};
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::{ExecutionPlan, execute_stream};
use datafusion::prelude::{SessionConfig, SessionContext};
use futures::{FutureExt, StreamExt};
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicIsize, Ordering};
use std::task::Poll;

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Full,
    PlanOnly,
    BeforePoll,
    /// the client goes away while it is waiting for the n-th time, whatever it is waiting for
    Waiting(usize),
    /// the client goes away after so many batches
    Batches(usize),
}

pub enum Work {
    Chain { data: Arc<TableData>, chain: Chain },
    Sql(Setup),
}

pub struct Q {
    pub work: Work,
    pub opts: Opts,
    pub end: End,
    /// the client keeps the plan after the end
    pub keep: bool,
    /// how often it lets others go first
    pub late: usize,
    pub fault: Option<&'static str>,
}

pub const FAILS: &str = "E!history";

impl Q {
    pub fn describe(&self) -> String {
        let w = match &self.work {
            Work::Chain { data, chain } => format!("{} rows, chunks {:?}, {}", data.total_rows(), data.chunks.iter().map(|c| c.len()).collect::<Vec<_>>(), chain.text),
            Work::Sql(s) => s.describe(),
        };
        format!("[{:?} keep={} late={} fault={:?} {w} {:?}]", self.end, self.keep, self.late, self.fault, self.opts)
    }
    pub fn tables(&self) -> Vec<Arc<TableData>> {
        match &self.work {
            Work::Chain { data, .. } => vec![Arc::clone(data)],
            Work::Sql(s) => s.tables.iter().map(|t| Arc::clone(&t.data)).collect(),
        }
    }
}

pub fn gen_end(t: &mut Tape) -> End {
    match t.weighted(&[4, 1, 1, 4, 3]) {
        0 => End::Full,
        1 => End::PlanOnly,
        2 => End::BeforePoll,
        3 => {
            let max = [1, 5, 20, 100, 1000][t.below(5)];
            End::Waiting(t.below(max))
        }
        _ => End::Batches(t.below(4)),
    }
}

pub struct HistCfg {
    pub max_rows: usize,
    pub faults: bool,
    pub sql: (usize, usize),
}

/// A query for a cluster of `workers` workers. Its tables are its own.
pub fn gen_query(t: &mut Tape, workers: usize, c: &HistCfg) -> Q {
    let end = gen_end(t);
    let late = [0, 1, 10][t.weighted(&[4, 2, 1])];
    let keep = t.chance(1, 3);
    let faulty = c.faults && t.chance(1, 3);
    let sort = t.weighted(&[3, 2, 1]);
    let at = (t.raw() as usize, t.raw() as usize);
    let (work, opts) = if t.chance(c.sql.0, c.sql.1) {
        let cfg = CaseCfg { gen_cfg: GenCfg::default(), table_cfg: TableCfg { max_rows: c.max_rows.min(24), ..Default::default() }, adaptive_sometimes: true, max_workers: workers, ..Default::default() };
        let mut s = decode(t, &cfg);
        s.workers = workers;
        s.opts.local = s.opts.local.map(|l| l % workers);
        let o = s.opts.clone();
        (Work::Sql(s), o)
    } else {
        let opts = gen_opts(t, workers);
        let data = id_table(t, 0, c.max_rows, false);
        let parts = t.range(1, 4);
        let chain = gen_chain(t, scan(&data, parts), 3, &mut |_, p, _, _| p);
        (Work::Chain { data, chain }, opts)
    };
    let mut q = Q { work, opts, end, keep, late, fault: None };
    if faulty {
        let tables = q.tables();
        let d = &tables[at.0 % tables.len()];
        let places: Vec<(usize, usize)> = d.chunks.iter().enumerate().flat_map(|(i, c)| (0..c.len()).map(move |j| (i, j))).collect();
        if !places.is_empty() {
            let f = match sort {
                0 => Fault::Error(Arc::new(|| DataFusionError::Execution(FAILS.into()))),
                // a producer that is stuck forever
                1 if !matches!(q.end, End::Full | End::Batches(_)) => Fault::Gate(Arc::new(tokio::sync::Semaphore::new(0))),
                1 => Fault::SleepMs(2),
                _ => Fault::Panic(FAILS.into()),
            };
            q.fault = Some(match &f {
                Fault::Error(_) => "error",
                Fault::Gate(_) => "stuck",
                Fault::SleepMs(_) => "slow",
                _ => "panic",
            });
            d.faults.lock().unwrap().insert(places[at.1 % places.len()], f);
        }
    }
    q
}

/// Counts the sessions that workers keep.
pub struct Token(Arc<AtomicIsize>);
impl Drop for Token {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

pub fn counted(live: &Arc<AtomicIsize>) -> CustomizeBuilder {
    let live = Arc::clone(live);
    Arc::new(move |_, _, mut b: SessionStateBuilder| {
        live.fetch_add(1, Ordering::SeqCst);
        b.config().get_or_insert_with(SessionConfig::default).set_extension(Arc::new(Token(Arc::clone(&live))));
        Ok(b)
    })
}

pub enum Outcome {
    Rows(Answer),
    Failed(DataFusionError),
    /// the client went away
    Left,
}

impl Outcome {
    pub fn name(&self) -> &'static str {
        match self {
            Outcome::Rows(_) => "complete",
            Outcome::Failed(_) => "failed",
            Outcome::Left => "left",
        }
    }
}

pub fn context(cluster: &Cluster, q: &Q) -> (SessionContext, String) {
    match &q.work {
        Work::Chain { chain, .. } => (SessionContext::new_with_state(cluster.session_builder_with(&q.opts, Some(Arc::clone(&chain.plan))).build()), "SELECT 1".into()),
        Work::Sql(s) => {
            let ctx = cluster.session(&q.opts);
            for t in &s.tables {
                ctx.register_table(t.name.as_str(), t.provider()).unwrap();
            }
            (ctx, s.query.sql())
        }
    }
}

/// Gives up a future when it has been waited for `n` times.
pub async fn give_up<T>(mut f: Pin<Box<dyn Future<Output = T> + Send + '_>>, n: usize) -> Option<T> {
    let mut polls = 0;
    futures::future::poll_fn(move |cx| match f.as_mut().poll(cx) {
        Poll::Ready(v) => Poll::Ready(Some(v)),
        Poll::Pending if polls >= n => Poll::Ready(None),
        Poll::Pending => {
            polls += 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

type Kept = Option<Arc<dyn ExecutionPlan>>;

/// Runs a query to its end. The plan is returned if the client keeps it.
pub async fn perform(ctx: &SessionContext, sql: &str, q: &Q) -> (Outcome, Kept) {
    let kept: std::sync::Mutex<Kept> = Default::default();
    let f = std::panic::AssertUnwindSafe(async {
        let plan = ctx.sql(sql).await?.create_physical_plan().await?;
        if q.keep {
            *kept.lock().unwrap() = Some(Arc::clone(&plan));
        }
        let mut batches = vec![];
        if q.end == End::PlanOnly {
            return Ok(None);
        }
        let mut s = execute_stream(plan, ctx.task_ctx())?;
        if q.end == End::BeforePoll {
            return Ok(None);
        }
        let schema = s.schema();
        loop {
            if matches!(q.end, End::Batches(n) if n <= batches.len()) {
                return Ok(None);
            }
            match s.next().await {
                Some(b) => batches.push(b?),
                None => return Ok(Some(Answer { schema, batches })),
            }
        }
    })
    .catch_unwind()
    .map(|r: std::result::Result<Result<Option<Answer>>, _>| r.unwrap_or_else(|p| panicked(p)));
    for _ in 0..q.late {
        tokio::task::yield_now().await;
    }
    let r = match q.end {
        End::Waiting(n) => give_up(Box::pin(f), n).await.unwrap_or(Ok(None)),
        _ => f.await,
    };
    let out = match r {
        Ok(Some(a)) => Outcome::Rows(a),
        Ok(None) => Outcome::Left,
        Err(e) => Outcome::Failed(e),
    };
    (out, kept.into_inner().unwrap())
}

/// What is wrong with an answer, if anything: (signature, message). Errors that are not the injected one are
/// wrong, too, unless single-node execution has them.
pub async fn judge(q: &Q, out: &Outcome) -> std::result::Result<(), (String, String)> {
    match (out, q.fault) {
        (Outcome::Left, _) => Ok(()),
        (Outcome::Failed(e), Some("error" | "panic")) if e.to_string().contains(FAILS) => Ok(()),
        (Outcome::Failed(e), f) => {
            if let Work::Sql(s) = &q.work
                && (f.is_some() || !matches!(expected(&s.tables, &s.query).await, Ok(_)) || upstream(s, &err_sig(e), &e.to_string()).await)
            {
                return Ok(());
            }
            Err((err_sig(e), format!("failed with {e}")))
        }
        (Outcome::Rows(a), f) => match &q.work {
            Work::Chain { data, chain } => {
                let mut want = vec![];
                for _ in 0..chain.times {
                    for c in &data.chunks {
                        want.extend(crate::data::rows(c));
                    }
                }
                match diff_multiset(&a.rows(), &want) {
                    None if matches!(f, Some("error" | "panic")) => Err(("complete in spite of a failure".into(), String::new())),
                    None => Ok(()),
                    Some(m) => Err(("rows".into(), m)),
                }
            }
            Work::Sql(s) => {
                // the reference runs into the same faults
                s.tables.iter().for_each(|t| t.data.faults.lock().unwrap().clear());
                let exp = std::panic::AssertUnwindSafe(expected(&s.tables, &s.query)).catch_unwind().await.unwrap_or_else(|p| panicked(p));
                let Ok(exp) = exp else { return Ok(()) };
                match compare(&s.query, &exp, a) {
                    Ok(()) => Ok(()),
                    Err((k, m)) => match upstream(s, &format!("mismatch:{k}"), &m).await {
                        true => Ok(()),
                        false => Err((format!("mismatch:{k}"), m)),
                    },
                }
            }
        },
    }
}

async fn upstream(s: &Setup, sig: &str, msg: &str) -> bool {
    s.tables.iter().for_each(|t| t.data.faults.lock().unwrap().clear());
    let cluster = Cluster::start(ClusterCfg { workers: s.workers, ..Default::default() });
    let ctx = cluster.session(&s.opts);
    for t in &s.tables {
        ctx.register_table(t.name.as_str(), t.provider()).unwrap();
    }
    // alone, on a cluster of its own: what goes wrong there as well is the business of other properties
    let alone = std::panic::AssertUnwindSafe(run(&ctx, &s.query.sql())).catch_unwind().await.unwrap_or_else(|p| panicked(p));
    let exp = std::panic::AssertUnwindSafe(expected(&s.tables, &s.query)).catch_unwind().await.unwrap_or_else(|p| panicked(p));
    let Ok(exp) = exp else { return true };
    match alone {
        Err(_) => true,
        Ok((a, plan)) => compare(&s.query, &exp, &a).is_err() || upstream_excuse(s, &exp, sig, msg, Some(&plan)).await.is_some(),
    }
}

/// Queries that are too much work, or have no reference.
pub async fn unsuitable(q: &Q) -> Option<String> {
    let Work::Sql(s) = &q.work else { return None };
    let exp = std::panic::AssertUnwindSafe(expected(&s.tables, &s.query)).catch_unwind().await.unwrap_or_else(|p| panicked(p));
    match exp {
        Ok(e) if e.work / s.opts.batch_size.min(if s.opts.shuffle_batch > 0 { s.opts.shuffle_batch } else { 20 }).clamp(1, 20) > 3000 => Some("too much work".into()),
        Ok(_) => None,
        Err(e) => Some(format!("reference: {}", sig_of_error(&e.to_string()))),
    }
}

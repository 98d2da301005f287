//! The query-equivalence case shared by several properties.
use crate::cluster::*;
use crate::oracle::*;
use crate::runner::{Info, Res};
use crate::sql::*;
use crate::tape::Tape;
use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
use datafusion::physical_plan::ExecutionPlan;
use futures::FutureExt;
use datafusion_distributed::{NetworkBoundaryExt, display_plan_ascii};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct CaseCfg {
    pub gen_cfg: GenCfg,
    pub table_cfg: TableCfg,
    pub adaptive: bool,
    pub adaptive_sometimes: bool,
    /// also check the task counts sent to workers against the configured limits
    pub check_bounds: bool,
    pub max_workers: usize,
}

impl Default for CaseCfg {
    fn default() -> Self {
        Self { gen_cfg: GenCfg::default(), table_cfg: TableCfg::default(), adaptive: false, adaptive_sometimes: false, check_bounds: false, max_workers: 5 }
    }
}

pub struct Setup {
    pub threads: usize,
    pub workers: usize,
    pub opts: Opts,
    pub tables: Vec<Table>,
    pub query: Query,
    pub check_bounds: bool,
}

impl Setup {
    pub fn describe(&self) -> String {
        format!(
            "sql: {}\nworkers={} runtime_threads={} {:?}\n{}",
            self.query.sql(),
            self.workers,
            self.threads,
            self.opts,
            self.tables.iter().map(|t| t.describe()).collect::<Vec<_>>().join("\n")
        )
    }
}

pub fn decode(t: &mut Tape, c: &CaseCfg) -> Setup {
    let threads = [0, 2][t.weighted(&[2, 1])];
    let workers = [2, 3, 1, 4, 5, 6][t.weighted(&[4, 4, 1, 3, 1, 1])].min(c.max_workers);
    let mut opts = Opts::generate(t, workers);
    if c.adaptive || (c.adaptive_sometimes && t.chance(1, 3)) {
        opts.dynamic = Some([1, 16, 300, 10_000, 1 << 30][t.weighted(&[4, 3, 2, 1, 1])]);
    }
    let ntables = t.range(1, 3);
    let tables: Vec<Table> = (0..ntables).map(|i| gen_table(t, i, &c.table_cfg)).collect();
    let query = Gen::new(t, &tables, c.gen_cfg.clone()).query();
    Setup { threads, workers, opts, tables, query, check_bounds: c.check_bounds }
}

/// Boundary kinds and stage count of a distributed plan, or None if it has none.
pub fn boundaries(plan: &Arc<dyn ExecutionPlan>) -> Vec<(String, usize)> {
    let mut v = vec![];
    let _ = plan.apply(|p| {
        if let Some(b) = p.as_network_boundary() {
            v.push((p.name().to_string(), b.input_stage().task_count()));
        }
        Ok(TreeNodeRecursion::Continue)
    });
    v
}

/// No stage gets zero tasks or more tasks than the configured limit or the cluster allows.
pub fn task_bounds(cluster: &Cluster, o: &Opts, workers: usize) -> Result<(), String> {
    let max = if o.max_tasks == 0 { workers.max(1) } else { o.max_tasks };
    let mut seen: std::collections::BTreeMap<(uuid::Uuid, usize), (usize, Vec<usize>)> = Default::default();
    for e in cluster.shared.events() {
        if let Event::SetPlan { key, task_count, .. } = e {
            let s = seen.entry((key.query_id, key.stage_id)).or_insert((task_count, vec![]));
            if s.0 != task_count {
                return Err(format!("stage {} was sent with task counts {} and {task_count}", key.stage_id, s.0));
            }
            s.1.push(key.task_number);
        }
    }
    for ((_, stage), (n, mut tasks)) in seen {
        if n == 0 || n > max {
            return Err(format!("stage {stage} has {n} tasks, the limit is {max}"));
        }
        tasks.sort();
        // a query that needs no more rows ends before every task got its plan
        let len = tasks.len();
        tasks.dedup();
        if tasks.len() != len || tasks.iter().any(|t| *t >= n) {
            return Err(format!("stage {stage} with {n} tasks was installed as tasks {tasks:?}"));
        }
    }
    Ok(())
}

pub const LIMIT: Duration = Duration::from_secs(40);

pub fn sig_of_error(e: &str) -> String {
    // numbers, addresses and quoted names make signatures unstable
    let mut s = String::new();
    let mut last_digit = false;
    for ch in e.lines().next().unwrap_or("").chars().take(200) {
        if ch.is_ascii_digit() {
            if !last_digit {
                s.push('#');
            }
            last_digit = true;
        } else {
            last_digit = false;
            s.push(ch);
        }
    }
    s
}

pub fn query_case(tape: &[u32], c: &CaseCfg) -> Res {
    let t = &mut Tape::new(tape);
    let s = decode(t, c);
    let desc = s.describe();
    let d2 = desc.clone();
    match run_async(s.threads, LIMIT, async move { execute_setup(&s, desc).await }) {
        Ran::Done(r) => r,
        Ran::Hung { idle: true } => Res::Hang { desc: d2, idle: true },
        Ran::Hung { idle: false } => {
            // Busy: is it a query that is also expensive without distribution?
            let s = decode(&mut Tape::new(tape), c);
            match run_async(s.threads, Duration::from_secs(2), async move {
                let _ = run(&vanilla_like(&s.tables, &s.opts), &s.query.sql()).await;
            }) {
                Ran::Done(()) => Res::Hang { desc: d2, idle: false },
                Ran::Hung { .. } => Res::Discard("too much work".into()),
            }
        }
    }
}

/// A panic as an error.
pub fn panicked<T>(p: Box<dyn std::any::Any + Send>) -> datafusion::common::Result<T> {
    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
    datafusion::common::exec_err!("panicked: {}", m.unwrap_or_default())
}

pub async fn execute_setup(s: &Setup, desc: String) -> Res {
    let exp = std::panic::AssertUnwindSafe(expected(&s.tables, &s.query)).catch_unwind().await;
    let exp = match exp.unwrap_or_else(|p| panicked(p)) {
        Ok(e) => e,
        Err(e) => return Res::Discard(format!("reference: {}", sig_of_error(&e.to_string()))),
    };
    if exp.work / s.opts.batch_size.clamp(1, 20) > 10_000 {
        return Res::Discard("too much work".into());
    }
    let cluster = Cluster::start(ClusterCfg { workers: s.workers, ..Default::default() });
    let ctx = cluster.session(&s.opts);
    for t in &s.tables {
        ctx.register_table(t.name.as_str(), t.provider()).unwrap();
    }
    let sql = s.query.sql();
    let out = std::panic::AssertUnwindSafe(async {
        let df = ctx.sql(&sql).await.map_err(|e| (e, None))?;
        let plan = df.create_physical_plan().await.map_err(|e| (e, None))?;
        let a = run_plan(&ctx, &plan).await.map_err(|e| (e, Some(Arc::clone(&plan))))?;
        Ok::<_, (datafusion::common::DataFusionError, Option<Arc<dyn ExecutionPlan>>)>((a, plan))
    })
    .catch_unwind()
    .await
    .unwrap_or_else(|p| panicked(p).map_err(|e| (e, None)));
    let plan_text = |p: &Arc<dyn ExecutionPlan>| display_plan_ascii(p.as_ref(), false);
    let fail = match out {
        Ok((got, plan)) => match compare(&s.query, &exp, &got) {
            Ok(()) => {
                if s.check_bounds
                    && let Err(m) = task_bounds(&cluster, &s.opts, s.workers)
                {
                    return Res::Fail { sig: "task count out of bounds".into(), msg: m, desc };
                }
                let mut info = Info { desc: s.describe(), ..Default::default() };
                let bs = boundaries(&plan);
                let sets = cluster.shared.setplans.load(std::sync::atomic::Ordering::SeqCst);
                info.nontrivial = sets > 0;
                if s.opts.dynamic.is_some() {
                    info.class("adaptive");
                }
                for f in &s.query.features {
                    info.class(format!("sql:{f}"));
                }
                for (n, _) in &bs {
                    if !info.classes.iter().any(|c| c == n) {
                        info.class(n.clone());
                    }
                }
                if bs.iter().any(|b| b.1 > 1) {
                    info.class("multi-task stage");
                }
                if bs.len() >= 3 {
                    info.class("3+ stages");
                }
                if exp.full.n() > 0 {
                    info.class("non-empty result");
                }
                return Res::Ok(info);
            }
            Err((kind, msg)) => (format!("mismatch:{kind}"), msg, Some(plan)),
        },
        Err((e, plan)) => (format!("error:{}", sig_of_error(&e.to_string())), format!("query failed: {e}"), plan),
    };
    if let Some(why) = upstream_excuse(s, &exp, &fail.0, &fail.1, fail.2.as_ref()).await {
        return Res::Discard(why);
    }
    let desc = match &fail.2 {
        Some(p) => format!("{desc}\n{}", plan_text(p)),
        None => desc,
    };
    Res::Fail { sig: fail.0, msg: fail.1, desc }
}

/// Why a failure is not one of the distributed engine, if it is not.
/// The plan of a query that failed when it was executed.
pub async fn planned(ctx: &datafusion::prelude::SessionContext, text: &str) -> Option<Arc<dyn ExecutionPlan>> {
    let plan = async { ctx.sql(text).await.ok()?.create_physical_plan().await.ok() };
    std::panic::AssertUnwindSafe(plan).catch_unwind().await.ok().flatten()
}

pub async fn upstream_excuse(s: &Setup, exp: &Expected, sig: &str, msg: &str, plan: Option<&Arc<dyn ExecutionPlan>>) -> Option<String> {
    if (sig.starts_with("mismatch") || msg.contains("index out of bounds")) && plan.is_some_and(upstream_ordering_defect) {
        return Some("upstream: ordering claimed by a grouping-sets aggregation, reversed window function or join filter".into());
    }
    if msg.contains("Ordering direction required for DISTINCT with limit") && plan.is_some_and(limited_sorted_distinct) {
        return Some("upstream: soft limit on a sorted distinct aggregation".into());
    }
    if sig == "mismatch:order" && !in_order(&s.query, exp.limited.as_ref().unwrap_or(&exp.full)) {
        return Some("single-node answer is not in the requested order".into());
    }
    // Is single-node DataFusion itself consistent for this query with these options?
    let like = vanilla_like(&s.tables, &s.opts);
    let alone = std::panic::AssertUnwindSafe(run(&like, &s.query.sql())).catch_unwind().await;
    match alone.unwrap_or_else(|p| panicked(p)) {
        // The single-node planner drops sort keys it believes to be determined by the others; where
        // it is wrong about that, ties are in no particular order.
        Ok((_, single)) if sig == "mismatch:order" && top_sort_keys(&single) < s.query.order.len() => Some("single-node planner drops sort keys".into()),
        Ok((_, single)) if sig == "mismatch:order" && sorts_constant(&single) => Some("single-node planner believes a sort key constant".into()),
        Ok((_, single)) if sig.starts_with("mismatch") && constant_below_outer_join(&single) => Some("single-node planner believes a column of an outer join constant".into()),
        Ok((a, _)) if compare(&s.query, exp, &a).is_err() => Some("single-node DataFusion disagrees with itself".into()),
        Ok(_) => None,
        Err(e) => Some(format!("single-node: {}", sig_of_error(&e.to_string()))),
    }
}

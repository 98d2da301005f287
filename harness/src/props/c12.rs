//! C12: collected metrics account for every task of every stage exactly once.
use crate::cluster::*;
use crate::oracle::*;
use crate::place::*;
use crate::probe::{ProbeLog, Reader};
use crate::props::c08;
use crate::props::c20::walk;
use crate::props::qcase::*;
use crate::runner::{Info, Part, Property, Res};
use crate::sql::TableCfg;
use crate::tape::Tape;
use datafusion::physical_expr::expressions::CastExpr;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::projection::ProjectionExec;
use datafusion::physical_plan::ExecutionPlan;
use datafusion_distributed::{DistributedMetricsFormat, NetworkBoundaryExt, display_plan_ascii, display_plan_graphviz, rewrite_distributed_plan_with_metrics};
use futures::FutureExt;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;

type Plan = Arc<dyn ExecutionPlan>;
type Verdict = std::result::Result<(), (String, String)>;

/// One metric of a node, without the label of its task.
#[derive(Debug, Clone, PartialEq)]
struct One {
    name: String,
    partition: Option<usize>,
    value: String,
    number: usize,
    tasks: Vec<String>,
}

#[derive(Debug, PartialEq)]
struct Node {
    name: String,
    stage_tasks: usize,
    depth: usize,
    /// The metrics are the operator's own and still change while what the query has left behind ends:
    /// the head stage, and tasks executed by the coordinator itself.
    live: bool,
    ones: Vec<One>,
}

impl Node {
    fn sum(&self, name: &str) -> Option<usize> {
        let v: Vec<_> = self.ones.iter().filter(|o| o.name == name).map(|o| o.number).collect();
        if v.is_empty() { None } else { Some(v.iter().sum()) }
    }
}

/// The nodes of an annotated plan, with the task count of their stage.
fn nodes(plan: &Plan, stage_tasks: usize, depth: usize, live: (bool, bool), out: &mut Vec<Node>) {
    let ones = plan
        .metrics()
        .map(|m| {
            m.iter()
                .map(|m| One {
                    name: m.value().name().to_string(),
                    partition: m.partition(),
                    value: m.value().to_string(),
                    number: m.value().as_usize(),
                    tasks: m.labels().iter().filter(|l| l.name() == "task_id").map(|l| l.value().to_string()).collect(),
                })
                .collect()
        })
        .unwrap_or_default();
    out.push(Node { name: plan.name().to_string(), stage_tasks, depth, live: live.0, ones });
    let (below, live) = plan.as_network_boundary().map(|b| (b.input_stage().task_count(), (live.1, live.1))).unwrap_or((stage_tasks, live));
    for c in plan.children() {
        nodes(c, below, depth + 1, live, out);
    }
}

async fn annotate(plan: &Plan, f: DistributedMetricsFormat) -> std::result::Result<Plan, (String, String)> {
    let run = std::panic::AssertUnwindSafe(rewrite_distributed_plan_with_metrics(Arc::clone(plan), f)).catch_unwind();
    match tokio::time::timeout(Duration::from_secs(6), run).await {
        Err(_) => Err(("annotation does not end".into(), "waited 6 s for the metrics of a query that was read to its end".into())),
        Ok(r) => r.unwrap_or_else(|p| panicked(p)).map_err(|e| ("annotation fails".into(), e.to_string())),
    }
}

struct Annotated {
    plan: Plan,
    agg: Vec<Node>,
    per_task: Vec<Node>,
}

/// What holds for the annotated forms of any executed plan.
async fn annotations(plan: &Plan, local: bool) -> std::result::Result<Annotated, (String, String)> {
    let bad = |s: &str, m: String| Err((s.to_string(), m));
    let list = |p: &Plan| {
        let mut v = vec![];
        nodes(p, 1, 0, (true, local), &mut v);
        v
    };
    let a = annotate(plan, DistributedMetricsFormat::Aggregated).await?;
    let agg = list(&a);
    let pt = annotate(plan, DistributedMetricsFormat::PerTask).await?;
    let per_task = list(&pt);
    let again = list(&annotate(plan, DistributedMetricsFormat::Aggregated).await?);
    if let Some(i) = (1..agg.len()).find(|i| !agg[*i].live && agg.get(*i) != again.get(*i)) {
        return bad("annotated twice", format!("{:?}\nthen {:?}", agg[i], again.get(i)));
    }
    for (x, y) in agg.iter().zip(&per_task).skip(1) {
        if let Some(o) = x.ones.iter().find(|o| !o.tasks.is_empty()) {
            return bad("task label in the aggregated form", format!("{}: {o:?}", x.name));
        }
        for o in &y.ones {
            let t = o.tasks.first().and_then(|t| t.parse::<usize>().ok());
            if o.tasks.len() != 1 || t.is_none_or(|t| t >= x.stage_tasks) {
                return bad("task label", format!("{} of a stage of {} tasks: {o:?}", x.name, x.stage_tasks));
            }
        }
        let key = |n: &Node| {
            let mut v: Vec<_> = n.ones.iter().map(|o| format!("{} {:?} {}", o.name, o.partition, o.value)).collect();
            v.sort();
            v
        };
        if !x.live && key(x) != key(y) {
            return bad("aggregated and per task differ", format!("{}: {:?}\nper task {:?}", x.name, key(x), key(y)));
        }
    }
    for p in [&a, &pt] {
        let text = display_plan_ascii(p.as_ref(), true);
        rendered(&text)?;
        display_plan_graphviz(Arc::clone(p)).map_err(|e| ("graphviz".to_string(), e.to_string()))?;
    }
    Ok(Annotated { plan: a, agg, per_task })
}

/// Per-task values in a rendering: every task once, none beyond the tasks of the stage.
fn rendered(text: &str) -> Verdict {
    let mut tasks = vec![];
    for line in text.lines() {
        let l = line.trim_start();
        let depth = (line.len() - l.len()) / 2;
        if l.starts_with('┌') {
            tasks.truncate(depth);
            let n = l.split("tasks=").nth(1).and_then(|r| r.split(',').next()).and_then(|n| n.parse::<usize>().ok()).unwrap_or(1);
            tasks.push(n);
        }
        let n = *tasks.last().unwrap_or(&1);
        let mut rest = line;
        // name={0:.., 1:..}
        while let Some(at) = rest.find("={") {
            let body = &rest[at + 2..];
            let Some(end) = body.find('}') else { break };
            let ids: Vec<_> = body[..end].split(", ").filter_map(|p| p.split_once(':')).map(|p| p.0.parse::<usize>()).collect();
            rest = &body[end..];
            let Ok(ids) = ids.into_iter().collect::<std::result::Result<Vec<_>, _>>() else { continue };
            let header = l.starts_with('┌') && l.contains("Stage ");
            if ids.windows(2).any(|w| w[0] >= w[1]) || ids.iter().any(|i| *i >= n) || (header && ids.len() != n) {
                return Err(("rendered tasks".into(), format!("stage of {n} tasks: {line}")));
            }
        }
    }
    Ok(())
}

fn sums(v: &[Node], name: &str) -> usize {
    v.iter().filter_map(|n| n.sum(name)).sum()
}

/// Operators that pass on every row they read.
fn conserving(n: &str) -> bool {
    ["ProjectionExec", "CoalescePartitionsExec", "CooperativeExec", "RepartitionExec", "SortExec", "SortPreservingMergeExec"].contains(&n)
}

/// Rows may stay unread: the operators above can be done before their input is.
fn may_stop_early(plan: &Plan) -> bool {
    let mut stops = false;
    walk(plan, &mut |p| stops |= p.fetch().is_some() || p.name().contains("Limit") || p.name().contains("Join"));
    stops
}

/// A union puts a projection with casts over each input whose schema differs from its own, in
/// nullability say. Upstream's casts lose that when decoded and the union adds one more, so a worker's
/// plan has operators that the coordinator's does not.
fn reshaped_by_decoding(plan: &Plan) -> bool {
    let (mut union, mut differs, mut relabels) = (false, false, false);
    walk(plan, &mut |p| {
        if p.name().contains("Union") || p.name() == "InterleaveExec" {
            union = true;
            differs |= p.children().iter().any(|c| c.schema().fields() != p.schema().fields());
        }
        if let Some(pr) = p.downcast_ref::<ProjectionExec>() {
            let schema = pr.input().schema();
            relabels |= pr.expr().iter().any(|e| {
                e.expr.downcast_ref::<CastExpr>().is_some_and(|c| c.expr().data_type(&schema).is_ok_and(|t| t == *c.cast_type()))
            });
        }
    });
    differs || (union && relabels)
}

/// The plan of a query as executed, boundaries included (the adaptive ones are only known afterwards).
fn sql(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let cfg = CaseCfg { table_cfg: TableCfg { max_rows: 40, ..Default::default() }, adaptive_sometimes: true, ..Default::default() };
    let mut s = decode(t, &cfg);
    s.opts.metrics = !t.chance(1, 12);
    let explain = t.weighted(&[2, 1, 1]);
    let desc = format!("{}\n{}", s.describe(), ["annotated", "EXPLAIN ANALYZE", "EXPLAIN ANALYZE VERBOSE"][explain]);
    let d = desc.clone();
    guard(s.threads, &d, async move {
        let exp = std::panic::AssertUnwindSafe(expected(&s.tables, &s.query)).catch_unwind().await.unwrap_or_else(|p| panicked(p));
        let exp = match exp {
            Ok(e) => e,
            Err(e) => return Res::Discard(format!("reference: {}", sig_of_error(&e.to_string()))),
        };
        if exp.work / s.opts.batch_size.min(if s.opts.shuffle_batch > 0 { s.opts.shuffle_batch } else { 20 }).clamp(1, 20) > 3000 {
            return Res::Discard("too much work".into());
        }
        let c = Cluster::start(ClusterCfg { workers: s.workers, ..Default::default() });
        let ctx = c.session(&s.opts);
        for tb in &s.tables {
            ctx.register_table(tb.name.as_str(), tb.provider()).unwrap();
        }
        let mut info = Info { desc: desc.clone(), ..Default::default() };
        let text = format!("{}{}", ["", "EXPLAIN ANALYZE ", "EXPLAIN ANALYZE VERBOSE "][explain], s.query.sql());
        let run = std::panic::AssertUnwindSafe(run(&ctx, &text)).catch_unwind();
        let out = match tokio::time::timeout(Duration::from_secs(20), run).await {
            Err(_) => return fail("query does not end", text, &desc),
            Ok(r) => r.unwrap_or_else(|p| panicked(p)),
        };
        let (a, plan) = match out {
            Ok(x) => x,
            Err(e) => {
                let plan = planned(&ctx, &s.query.sql()).await;
                if let Some(why) = upstream_excuse(&s, &exp, &err_sig(&e), &e.to_string(), plan.as_ref()).await {
                    return Res::Discard(why);
                }
                return fail(&err_sig(&e), format!("query failed: {e}"), &desc);
            }
        };
        if reshaped_by_decoding(&plan) {
            return Res::Discard("upstream: decoding a union adds projections".into());
        }
        let v = match explain {
            0 => check_sql(&s, &a, &plan, &mut info).await,
            n => check_explain(&s, &exp, &a, n == 2, &mut info),
        };
        match v {
            Ok(()) => Res::Ok(info),
            Err((sig, m)) => fail(&sig, m, &desc),
        }
    })
}

async fn check_sql(s: &Setup, a: &Answer, plan: &Plan, info: &mut Info) -> Verdict {
    let distributed = plan.name() == "DistributedExec";
    if !distributed || !s.opts.metrics {
        let p = annotate(plan, DistributedMetricsFormat::Aggregated).await?;
        let q = annotate(plan, DistributedMetricsFormat::PerTask).await?;
        if !Arc::ptr_eq(&p, plan) || !Arc::ptr_eq(&q, plan) {
            return Err(("plan changed".into(), "a plan without metrics of tasks was rewritten".into()));
        }
        info.class(if distributed { "collection off" } else { "not distributed" });
        return Ok(());
    }
    let an = annotations(plan, s.opts.local.is_some()).await?;
    let text = || display_plan_ascii(an.plan.as_ref(), true);
    info.nontrivial = an.agg.iter().any(|n| n.stage_tasks > 1 || n.name.starts_with("Network"));
    if an.agg.iter().any(|n| n.stage_tasks > 1) {
        info.class("stage of several tasks");
    }
    let early = may_stop_early(&an.plan);
    info.class(if early { "may stop early" } else { "reads everything" });
    if an.agg.iter().any(|n| n.name == "ChildrenIsolatorUnionExec") {
        info.class("isolated union");
    }
    if s.opts.dynamic.is_some() {
        info.class("adaptive");
    }
    // the head yields the answer
    if let Some(n) = an.agg.iter().skip(1).find(|n| n.sum("output_rows").is_some())
        && n.depth == 1
        && n.sum("output_rows") != Some(a.n())
    {
        return Err(("head rows".into(), format!("{} reports {:?}, the query gave {}\n{}", n.name, n.sum("output_rows"), a.n(), text())));
    }
    for tb in &s.tables {
        let name = format!("execs_of_{}", tb.name);
        for v in [&an.agg, &an.per_task] {
            // misplaced metrics
            if let Some(n) = v.iter().find(|n| n.sum(&name).is_some() && n.name != "VScan" && n.name != "DistributedLeafExec") {
                return Err(("metric of another operator".into(), format!("{} has {name}\n{}", n.name, text())));
            }
            let got: usize = v.iter().filter(|n| n.sum(&name).is_some()).filter_map(|n| n.sum("output_rows")).sum();
            let was = tb.data.rows_emitted.load(std::sync::atomic::Ordering::SeqCst);
            let execs = tb.data.execs.lock().unwrap().len();
            let runs = sums(v, &name);
            if got > was || runs > execs || (!early && (got != was || runs != execs)) {
                return Err(("scan rows".into(), format!("{}: {got} rows of {runs} runs reported, {was} of {execs} happened\n{}", tb.name, text())));
            }
        }
    }
    if !early {
        for (i, n) in an.agg.iter().enumerate() {
            if conserving(&n.name)
                && let Some(c) = an.agg.get(i + 1)
                && c.depth == n.depth + 1
                && !c.name.starts_with("Network")
                && let (Some(x), Some(y)) = (n.sum("output_rows"), c.sum("output_rows"))
                && x != y
            {
                return Err(("rows between operators".into(), format!("{} {x}, its input {} {y}\n{}", n.name, c.name, text())));
            }
        }
        rows_by_task(&an.per_task, info).map_err(|(sig, m)| (sig, format!("{m}\n{}", text())))?;
    }
    Ok(())
}

/// The rows that leave an operator in a task came from its inputs in that task.
fn rows_by_task(v: &[Node], info: &mut Info) -> Verdict {
    let by_task = |n: &Node| {
        let mut m: BTreeMap<String, usize> = BTreeMap::new();
        for o in n.ones.iter().filter(|o| o.name == "output_rows") {
            *m.entry(o.tasks.join("+")).or_default() += o.number;
        }
        m.retain(|_, n| *n > 0);
        m
    };
    for (i, n) in v.iter().enumerate() {
        let union = ["UnionExec", "InterleaveExec", "ChildrenIsolatorUnionExec"].contains(&n.name.as_str());
        if n.live || !(union || conserving(&n.name)) || n.sum("output_rows").is_none() {
            continue;
        }
        let inputs: Vec<&Node> = v[i + 1..].iter().take_while(|c| c.depth > n.depth).filter(|c| c.depth == n.depth + 1).collect();
        if inputs.iter().any(|c| c.name.starts_with("Network") || c.sum("output_rows").is_none()) {
            continue;
        }
        let mut want: BTreeMap<String, usize> = BTreeMap::new();
        for c in &inputs {
            for (t, r) in by_task(c) {
                *want.entry(t).or_default() += r;
            }
        }
        if by_task(n) != want {
            return Err(("rows of a task".into(), format!("{} gave {:?} rows by task, its inputs {want:?}", n.name, by_task(n))));
        }
        if union && want.len() > 1 {
            info.class("rows of a union by task");
        }
    }
    Ok(())
}

fn check_explain(s: &Setup, exp: &Expected, a: &Answer, verbose: bool, info: &mut Info) -> Verdict {
    let rows: BTreeMap<String, String> = a
        .batches
        .iter()
        .flat_map(|b| {
            let get = |c: usize, r: usize| datafusion::arrow::util::display::array_value_to_string(b.column(c), r).unwrap();
            (0..b.num_rows()).map(|r| (get(0, r), get(1, r))).collect::<Vec<_>>()
        })
        .collect();
    let Some(text) = rows.get("Plan with Metrics") else {
        return Err(("explain without a plan".into(), format!("{rows:?}")));
    };
    let distributed = text.contains("DistributedExec");
    info.class(if distributed { "distributed" } else { "not distributed" });
    info.nontrivial = text.contains("Network");
    let mut texts = vec![text];
    if verbose {
        let want = exp.limited.as_ref().unwrap_or(&exp.full).n();
        if rows.get("Output Rows") != Some(&want.to_string()) {
            return Err(("explain rows".into(), format!("{:?}, the query has {want}", rows.get("Output Rows"))));
        }
        texts.extend(rows.get("Plan with Full Metrics"));
        if texts.len() < 2 || !rows.contains_key("Duration") {
            return Err(("explain verbose".into(), format!("{:?}", rows.keys())));
        }
    }
    if !distributed || !s.opts.metrics {
        return Ok(());
    }
    let early = ["fetch=", "Limit", "Join"].iter().any(|w| text.contains(w));
    for t in texts {
        rendered(t)?;
        for tb in &s.tables {
            // execs_of_t=N, or execs_of_t={0:N, 1:M}
            let name = format!("execs_of_{}=", tb.name);
            let mut runs = 0;
            for l in t.split(&name).skip(1) {
                let l = match l.strip_prefix('{') {
                    Some(b) => b.split('}').next().unwrap_or(""),
                    None => l.split([',', ']']).next().unwrap_or(""),
                };
                for n in l.split(", ") {
                    runs += n.rsplit(':').next().unwrap_or("").parse::<usize>().map_err(|_| ("explain text".to_string(), format!("{l} in {t}")))?;
                }
            }
            let execs = tb.data.execs.lock().unwrap().len();
            if runs > execs || (!early && runs != execs) {
                return Err(("scan rows".into(), format!("{}: {runs} runs reported, {execs} happened\n{t}", tb.name)));
            }
        }
    }
    Ok(())
}

/// Chains of stages with a counting probe on top of each; readers of all kinds.
fn placed(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let workers = t.range(1, 4);
    let threads = [2, 0, 4][t.weighted(&[3, 2, 1])];
    let mut opts = gen_opts(t, workers);
    opts.metrics = true;
    let data = id_table(t, 0, 40, false);
    let lossy = t.chance(1, 3);
    let parts = t.range(1, 4);
    let mut logs: Vec<(Arc<ProbeLog>, usize)> = vec![];
    let chain = gen_chain(t, scan(&data, parts), 4, &mut |t, p, stage, tasks| {
        use datafusion::physical_plan::ExecutionPlanProperties;
        let n = p.output_partitioning().partition_count();
        let log = if lossy && t.bool() { gen_log(t, tasks, n, true, false) } else { ProbeLog::plain() };
        *log.tally.lock().unwrap() = Some(format!("rows_at_{stage}"));
        logs.push((Arc::clone(&log), tasks));
        probe(p, &log)
    });
    let desc = format!(
        "workers={workers} runtime_threads={threads} {opts:?}\nchunks {:?} x{parts}\n{}\n{}",
        data.chunks.iter().map(|c| c.len()).collect::<Vec<_>>(),
        chain.text,
        logs.iter().map(|l| log_text(&l.0)).collect::<Vec<_>>().join("\n")
    );
    let d = desc.clone();
    guard(threads, &d, async move {
        let c = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let (a, plan) = match run_placed(&c, &opts, Arc::clone(&chain.plan)).await {
            Ok(x) => x,
            Err(e) => return fail(&err_sig(&e), format!("query failed: {e}"), &desc),
        };
        let mut info = Info { desc: desc.clone(), ..Default::default() };
        if plan.name() != "DistributedExec" {
            info.class("not distributed");
            return match annotate(&plan, DistributedMetricsFormat::PerTask).await {
                Ok(p) if Arc::ptr_eq(&p, &plan) => Res::Ok(info),
                Ok(_) => fail("plan changed", "", &desc),
                Err((sig, m)) => fail(&sig, m, &desc),
            };
        }
        let an = match annotations(&plan, opts.local.is_some()).await {
            Ok(x) => x,
            Err((sig, m)) => return fail(&sig, m, &desc),
        };
        let text = || display_plan_ascii(an.plan.as_ref(), true);
        let stops = logs.iter().any(|l| l.0.readers.values().any(|r| matches!(r, Reader::StopAfter(_) | Reader::Never | Reader::OpenDrop)));
        for (i, (log, tasks)) in logs.iter().enumerate() {
            let name = format!("rows_at_{i}");
            let mut want: BTreeMap<(usize, usize), usize> = BTreeMap::new();
            for r in log.runs() {
                *want.entry(r.place()).or_default() += r.batches.iter().map(|b| b.num_rows()).sum::<usize>();
            }
            let mut got: BTreeMap<(usize, usize), usize> = BTreeMap::new();
            for n in &an.per_task {
                for o in n.ones.iter().filter(|o| o.name == name) {
                    if n.name != "Probe" {
                        return fail("metric of another operator", format!("{} has {name}\n{}", n.name, text()), &desc);
                    }
                    let Some(p) = o.partition else { return fail("metric without partition", format!("{o:?}"), &desc) };
                    *got.entry((o.tasks[0].parse().unwrap(), p)).or_default() += o.number;
                }
            }
            let off = got.iter().find(|(k, n)| want.get(k).is_none_or(|w| *n > w)).or_else(|| want.iter().find(|(k, n)| !stops && got.get(k) != Some(n)));
            if let Some((k, _)) = off {
                return fail("probe rows", format!("stage {i} of {tasks} tasks, (task, partition) {k:?}: reported {:?}, was {:?}\n{}", got.get(k), want.get(k), text()), &desc);
            }
        }
        let top = sums(&an.agg, &format!("rows_at_{}", logs.len() - 1));
        if top != a.n() {
            return fail("head rows", format!("{top} reported, the query gave {}\n{}", a.n(), text()), &desc);
        }
        info.nontrivial = !c.shared.events().is_empty();
        if chain.tasks.iter().any(|n| *n > 1) {
            info.class("stage of several tasks");
        }
        info.class(if stops { "readers that stop" } else { "reads everything" });
        if opts.local.is_some() {
            info.class("coordinator on a worker");
        }
        Res::Ok(info)
    })
}

/// Unions whose inputs run in some of the tasks only.
fn unions(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[3, 1])];
    let workers = [3, 2, 1, 4, 6][t.weighted(&[3, 3, 1, 2, 2])];
    let mut o = c08::opts(t, workers);
    o.metrics = true;
    let mut tables = vec![];
    let branches = c08::gen_branches(t, &mut tables, 0);
    let desc = format!(
        "workers={workers} threads={threads} {o:?}\n{branches:?}\n{}",
        tables.iter().map(|d| format!("{}: {:?} {} chunks ctx_mode={}", d.name, d.demand, d.chunks.len(), d.ctx_mode)).collect::<Vec<_>>().join("\n")
    );
    let d = desc.clone();
    guard(threads, &desc, async move {
        let plan: Plan = match c08::build(&c08::Branch::Union(branches), &tables) {
            Ok(u) => Arc::new(CoalescePartitionsExec::new(u)),
            Err(e) => return Res::Discard(format!("plan: {e}")),
        };
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let (got, plan) = match run_placed(&cluster, &o, plan).await {
            Ok(x) => x,
            Err(e) => return fail(&err_sig(&e), format!("failed: {e}"), &d),
        };
        if plan.name() != "DistributedExec" {
            return Res::Discard("not distributed".into());
        }
        let an = match annotations(&plan, o.local.is_some()).await {
            Ok(x) => x,
            Err((sig, m)) => return fail(&sig, m, &d),
        };
        let d = format!("{d}\n{}", display_plan_ascii(an.plan.as_ref(), true));
        let mut info = Info { desc: d.clone(), ..Default::default() };
        let mut rows = 0;
        for tb in &tables {
            let name = format!("execs_of_{}", tb.name);
            let execs = tb.execs.lock().unwrap().len();
            let was = tb.rows_emitted.load(std::sync::atomic::Ordering::SeqCst);
            rows += was;
            for v in [&an.agg, &an.per_task] {
                let seen: usize = v.iter().filter(|n| n.sum(&name).is_some()).filter_map(|n| n.sum("output_rows")).sum();
                let runs = sums(v, &name);
                if seen != was || runs != execs {
                    return fail("scan rows", format!("{}: {seen} rows of {runs} runs reported, {was} of {execs} happened", tb.name), &d);
                }
            }
        }
        if rows != got.n() {
            return fail("rows", format!("{rows} were read, {} arrived", got.n()), &d);
        }
        if let Err((sig, m)) = rows_by_task(&an.per_task, &mut info) {
            return fail(&sig, m, &d);
        }
        info.nontrivial = an.agg.iter().any(|n| n.name == "ChildrenIsolatorUnionExec" && n.stage_tasks > 1);
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C12",
        rule: "the plan had a network boundary",
        tape_len: 900,
        quick: 10_000,
        thorough: 120_000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["counts are exact where no operator may be done before its input, an upper bound otherwise"],
        parts: vec![Part { name: "sql", weight: 1, run: sql }, Part { name: "placed", weight: 1, run: placed }, Part { name: "unions", weight: 1, run: unions }],
    }
}

//! C09: stage task counts respect declared demands and limits; plans are well formed.
use super::qcase::*;
use crate::cluster::*;
use crate::oracle::*;
use crate::place::*;
use crate::props::c20::walk;
use crate::runner::{Info, Part, Property, Res};
use crate::scan::{Demand, as_vscan};
use crate::sql::TableCfg;
use crate::tape::Tape;
use datafusion::physical_expr::Distribution;
use datafusion::physical_plan::execution_plan::CardinalityEffect;
use datafusion::physical_plan::joins::HashJoinExec;
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties, Partitioning};
use datafusion::prelude::SessionContext;
use datafusion_distributed::{
    DesiredTaskCountEvent, DesiredTaskCountEventResponse, DistributedExt, DistributedLeafExec, DistributedMetricsFormat, NetworkBoundaryExt,
    display_plan_ascii, rewrite_distributed_plan_with_metrics,
};
use futures::FutureExt;
use std::collections::BTreeSet;
use std::sync::Arc;
use std::time::Duration;

type Plan = Arc<dyn ExecutionPlan>;
type Verdict = std::result::Result<(), (String, String)>;

/// Demands declared for operators other than leaves, by name.
type Inner = Vec<(&'static str, Demand)>;

const ASKED: [&str; 5] = ["FilterExec", "ProjectionExec", "BoundedWindowAggExec", "WindowAggExec", "HashJoinExec"];

fn gen_inner(t: &mut Tape) -> Inner {
    let mut v = vec![];
    if t.chance(1, 3) {
        for n in ASKED {
            match t.weighted(&[4, 1, 1]) {
                0 => {}
                1 => v.push((n, Demand::Desired(t.range(0, 6)))),
                _ => v.push((n, Demand::Maximum(t.range(0, 4)))),
            }
        }
    }
    v
}

fn is_hash_join_collect(p: &Plan) -> bool {
    p.downcast_ref::<HashJoinExec>().is_some_and(|h| *h.partition_mode() == datafusion::physical_plan::joins::PartitionMode::CollectLeft)
}

/// What is known of how a stage's task count must have come about.
#[derive(Default, Debug)]
struct Known {
    max: Option<usize>,
    desired: usize,
    /// something may hold the stage back to one task
    maybe_one: bool,
    /// something may ask for more tasks than `desired`
    maybe_more: bool,
    /// boundaries may have been optimised out of this stage
    merged: bool,
    leaves: usize,
}

struct Model<'a> {
    inner: &'a Inner,
    factor: f64,
    partial_reduce: bool,
    limit: usize,
    adaptive: bool,
}

impl Model<'_> {
    fn demand(&self, d: Demand, leaf: bool, k: &mut Known) {
        match d {
            Demand::Maximum(m) => k.max = Some(k.max.map_or(m.max(1), |x| x.min(m.max(1)))),
            Demand::Desired(n) => k.desired = k.desired.max(n),
            // nothing is known of this leaf: it cannot be distributed
            Demand::Unspecified if leaf => k.max = Some(k.max.map_or(1, |x| x.min(1))),
            Demand::Unspecified => {}
        }
    }

    /// `top`: the node the boundary above reads from.
    fn know(&self, p: &Plan, top: bool, k: &mut Known) {
        if let Some(b) = p.as_network_boundary() {
            let stage = b.input_stage();
            match p.name() {
                "NetworkCoalesceExec" => k.max = Some(k.max.map_or(1, |x| x.min(1))),
                _ => match (stage.local_plan(), self.scale(stage.local_plan(), stage.task_count())) {
                    (Some(_), Some(f)) => k.desired = k.desired.max((f * stage.task_count() as f64).ceil() as usize),
                    _ => k.maybe_more = true,
                },
            }
            return;
        }
        let leaf = p.downcast_ref::<DistributedLeafExec>().map(|l| l.original()).unwrap_or(p);
        if p.children().is_empty() {
            k.leaves += 1;
            self.demand(as_vscan(leaf).map(|s| s.data.demand).unwrap_or(Demand::Unspecified), true, k);
            return;
        }
        if p.name() == "ChildrenIsolatorUnionExec" {
            // asks for as many tasks as its branches together
            k.maybe_more = true;
            return;
        }
        if let Some((_, d)) = self.inner.iter().find(|x| x.0 == p.name()) {
            self.demand(*d, false, k);
        }
        let hash = p.downcast_ref::<RepartitionExec>().is_some_and(|r| matches!(r.partitioning(), Partitioning::Hash(..)));
        let folds = ["CoalescePartitionsExec", "SortPreservingMergeExec"].contains(&p.name());
        if (!top && (hash || p.name() == "BroadcastExec")) || folds {
            k.merged = true;
        }
        if is_hash_join_collect(p) || p.name() == "NestedLoopJoinExec" || p.name() == "CrossJoinExec" {
            k.maybe_one = true;
        }
        if p.fetch().is_some() && p.output_partitioning().partition_count() == 1 {
            k.maybe_one = true;
        }
        let req = p.input_distribution_requirements();
        for (c, d) in p.children().iter().zip(req.per_child_distributions()) {
            k.maybe_one |= c.output_partitioning().partition_count() == 1 && !matches!(d, Distribution::UnspecifiedDistribution);
        }
        for c in p.children() {
            self.know(c, false, k);
        }
    }

    /// How the rows of a stage change between its inputs and its head, if that can be told from the
    /// final plan.
    fn scale(&self, plan: Option<&Plan>, tasks: usize) -> Option<f64> {
        if self.partial_reduce || tasks == 1 || self.adaptive {
            return None;
        }
        fn rec(p: &Plan, factor: f64) -> Option<f64> {
            if p.as_network_boundary().is_some() {
                return Some(1.0);
            }
            if p.name() == "ChildrenIsolatorUnionExec" {
                return None;
            }
            let mut f: Option<f64> = None;
            for c in p.children() {
                let x = rec(c, factor)?;
                f = Some(f.map_or(x, |f| f.max(x)));
            }
            let f = f.unwrap_or(1.0);
            Some(match p.cardinality_effect() {
                CardinalityEffect::LowerEqual => f / factor,
                CardinalityEffect::GreaterEqual => f * factor,
                _ => f,
            })
        }
        rec(plan?, self.factor)
    }

    fn stage(&self, plan: &Plan, tasks: usize, info: &mut Info) -> Verdict {
        let err = |s: &str, m: String| Err((s.to_string(), format!("{m}\n{}", display_plan_ascii(plan.as_ref(), false))));
        let mut k = Known::default();
        self.know(plan, true, &mut k);
        if tasks == 0 {
            return err("no tasks", "a stage has no tasks".to_string());
        }
        if tasks > self.limit {
            return err("more tasks than the limit", format!("{tasks} tasks, limit {}", self.limit));
        }
        if let Some(m) = k.max
            && tasks > m
        {
            return err("more tasks than the declared maximum", format!("{tasks} tasks, maximum {m}"));
        }
        if self.adaptive || k.maybe_one || k.merged || (tasks == 1 && k.max == Some(1)) {
            return Ok(());
        }
        match k.max {
            Some(m) => {
                info.class("exact: a maximum");
                if tasks != m.min(self.limit) {
                    return err("maximum not used", format!("{tasks} tasks, {k:?}, limit {}", self.limit));
                }
            }
            None => {
                let want = k.desired.max(1).min(self.limit);
                if !k.maybe_more {
                    info.class(if k.leaves == 0 { "exact: over shuffles" } else { "exact: a desired count" });
                }
                if tasks < want || (!k.maybe_more && tasks != want) {
                    return err("desired count not used", format!("{tasks} tasks, {k:?}, limit {}", self.limit));
                }
            }
        }
        Ok(())
    }
}

/// The sizes of the tasks branches of isolated unions get, as far as leaves show them.
fn scaled(p: &Plan, tasks: Option<usize>, stage: usize) -> Verdict {
    let isolated = p.name() == "ChildrenIsolatorUnionExec";
    let want = if isolated { None } else { tasks };
    let got = match (p.downcast_ref::<DistributedLeafExec>(), as_vscan(p)) {
        (Some(l), _) => Some(l.variants().len()),
        (_, Some(s)) if !s.per_task.is_empty() => Some(s.per_task.len()),
        (_, Some(_)) => Some(1),
        _ => None,
    };
    if let Some(n) = got
        && (tasks.is_some_and(|t| t != n) || n > stage)
    {
        return Err(("leaf scaled for another task count".into(), format!("{} of {n} tasks in a stage of {stage}, expected {tasks:?}", p.name())));
    }
    // a leaf declaring a maximum never runs in more tasks
    let leaf = p.downcast_ref::<DistributedLeafExec>().map(|l| l.original()).unwrap_or(p);
    if let (Some(n), Some(s)) = (got, as_vscan(leaf))
        && let Demand::Maximum(m) = s.data.demand
        && n > m.max(1)
    {
        return Err(("more tasks than the declared maximum".into(), format!("a leaf of maximum {m} in {n} tasks")));
    }
    if p.as_network_boundary().is_some() {
        return Ok(());
    }
    for c in p.children() {
        scaled(c, want, stage)?;
    }
    Ok(())
}

/// Structure of a distributed plan.
fn well_formed(plan: &Plan, adaptive: bool) -> Verdict {
    let err = |s: &str, m: String| Err((s.to_string(), format!("{m}\n{}", display_plan_ascii(plan.as_ref(), false))));
    if plan.output_partitioning().partition_count() != 1 {
        return err("partitions of the head", format!("{}", plan.output_partitioning().partition_count()));
    }
    let mut nums = BTreeSet::new();
    let mut ids = BTreeSet::new();
    // (node, tasks of its stage; None within a branch of an isolated union)
    let mut todo: Vec<(Plan, Option<usize>, usize)> = vec![(Arc::clone(plan), Some(1), 1)];
    let mut found = 0;
    while let Some((p, tasks, stage_tasks)) = todo.pop() {
        if p.name() == "DistributedExec" && found > 0 {
            return err("nested head", String::new());
        }
        let Some(b) = p.as_network_boundary() else {
            let below = if p.name() == "ChildrenIsolatorUnionExec" && stage_tasks > 1 { None } else { tasks };
            todo.extend(p.children().into_iter().map(|c| (Arc::clone(c), below, stage_tasks)));
            continue;
        };
        found += 1;
        let s = b.input_stage();
        ids.insert(s.query_id());
        if !nums.insert(s.num()) {
            return err("stage number used twice", format!("{}", s.num()));
        }
        if s.task_count() == 0 {
            return err("stage without tasks", format!("{}", s.num()));
        }
        // with adaptive counts, stages run to be measured before what is above them is decided
        if s.task_count() == 1 && tasks == Some(1) && !adaptive {
            return err("boundary joins one task to one task", p.name().to_string());
        }
        let Some(sub) = s.local_plan() else {
            if adaptive {
                continue;
            }
            return err("stage without a plan", format!("{}", s.num()));
        };
        if sub.schema().fields() != p.schema().fields() {
            return err("schema", format!("stage {}: {:?} below, {:?} above", s.num(), sub.schema(), p.schema()));
        }
        let (below, above) = (sub.output_partitioning().partition_count(), p.output_partitioning().partition_count());
        if let Some(c) = tasks {
            let ok = match p.name() {
                "NetworkShuffleExec" | "NetworkBroadcastExec" => below == above * c,
                "NetworkCoalesceExec" => above == s.task_count().div_ceil(c) * below,
                _ => true,
            };
            if !ok {
                return err("partition counts", format!("{} stage {} of {} tasks: {below} partitions, {above} above in {c} tasks", p.name(), s.num(), s.task_count()));
            }
        } else if p.name() != "NetworkCoalesceExec" && (below % above != 0 || below / above > stage_tasks) {
            return err("partition counts", format!("{} stage {}: {below} partitions, {above} above in a branch", p.name(), s.num()));
        }
        scaled(sub, Some(s.task_count()), s.task_count()).or_else(|(a, m)| err(&a, m))?;
        todo.push((Arc::clone(sub), Some(s.task_count()), s.task_count()));
    }
    if found == 0 && !adaptive {
        return err("distributed without a boundary", String::new());
    }
    if ids.len() > 1 {
        return err("several query ids", format!("{ids:?}"));
    }
    if nums.iter().copied().ne(1..=nums.len()) && !adaptive {
        return err("stage numbers", format!("{nums:?}"));
    }
    Ok(())
}

fn check(s: &Setup, plan: &Plan, inner: &Inner, adaptive: bool, info: &mut Info) -> Verdict {
    let limit = if s.opts.max_tasks == 0 { s.workers.max(1) } else { s.opts.max_tasks };
    let mut boundaries = 0;
    let mut heads = 0;
    walk(plan, &mut |p| {
        boundaries += p.as_network_boundary().is_some() as usize;
        heads += (p.name() == "DistributedExec") as usize;
    });
    let text = || display_plan_ascii(plan.as_ref(), false);
    if limit == 1 && boundaries > 0 && !adaptive {
        return Err(("boundaries in a single-task plan".into(), text()));
    }
    if boundaries > 0 && (heads != 1 || plan.name() != "DistributedExec") {
        return Err(("boundaries without a head".into(), text()));
    }
    if boundaries == 0 {
        info.class("no boundary");
        if heads > 0 && !adaptive {
            return Err(("distributed without a boundary".into(), text()));
        }
        // leaves that could and wanted to be distributed were not?
        return Ok(());
    }
    info.nontrivial = true;
    info.class(&format!("{} stages", boundaries.min(5)));
    well_formed(plan, adaptive)?;
    let m = Model { inner, factor: s.opts.card_factor, partial_reduce: s.opts.partial_reduce, limit, adaptive };
    let mut stages = vec![];
    walk(plan, &mut |p| {
        if let Some(b) = p.as_network_boundary()
            && let Some(sub) = b.input_stage().local_plan()
        {
            stages.push((Arc::clone(sub), b.input_stage().task_count()));
        }
    });
    for (sub, n) in stages {
        m.stage(&sub, n, info)?;
    }
    Ok(())
}

fn with_inner(b: datafusion::execution::SessionStateBuilder, inner: &Inner) -> SessionContext {
    let inner = inner.clone();
    SessionContext::new_with_state(
        b.with_distributed_desired_task_count_handler(move |ev: DesiredTaskCountEvent<'_>| {
            let (_, d) = inner.iter().find(|x| x.0 == ev.plan.name())?;
            Some(Ok(match d {
                Demand::Desired(n) => DesiredTaskCountEventResponse::desired(*n),
                Demand::Maximum(n) => DesiredTaskCountEventResponse::maximum(*n),
                Demand::Unspecified => return None,
            }))
        })
        .build(),
    )
}

fn statics(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let mut s = decode(t, &CaseCfg { table_cfg: TableCfg { max_rows: 20, zero_demands: true, ..Default::default() }, ..Default::default() });
    if t.chance(1, 12) {
        s.workers = 0;
    }
    if t.chance(1, 4) {
        s.opts.max_tasks = t.range(1, 12);
    }
    s.opts.dynamic = None;
    let inner = gen_inner(t);
    let desc = format!("{}\ninner demands {inner:?}", s.describe());
    let d = desc.clone();
    guard(s.threads, &d, async move {
        let c = Cluster::start(ClusterCfg { workers: s.workers, ..Default::default() });
        let ctx = with_inner(c.session_builder(&s.opts), &inner);
        for tb in &s.tables {
            ctx.register_table(tb.name.as_str(), tb.provider()).unwrap();
        }
        let planned = std::panic::AssertUnwindSafe(async { ctx.sql(&s.query.sql()).await?.create_physical_plan().await }).catch_unwind();
        let plan = match tokio::time::timeout(Duration::from_secs(20), planned).await {
            Err(_) => return fail("planning does not end", "", &desc),
            Ok(r) => match r.unwrap_or_else(|p| panicked(p)) {
                Ok(p) => p,
                Err(e) => {
                    let exp = std::panic::AssertUnwindSafe(expected(&s.tables, &s.query)).catch_unwind().await.unwrap_or_else(|p| panicked(p));
                    let exp = match exp {
                        Ok(e) => e,
                        Err(e) => return Res::Discard(format!("reference: {}", sig_of_error(&e.to_string()))),
                    };
                    let sig = sig_of_error(&e.to_string());
                    return match upstream_excuse(&s, &exp, &sig, &e.to_string(), None).await {
                        Some(why) => Res::Discard(why),
                        None => fail(&sig, format!("planning failed: {e}"), &desc),
                    };
                }
            },
        };
        let mut info = Info { desc: desc.clone(), ..Default::default() };
        if !inner.is_empty() {
            info.class("demands of inner operators");
        }
        match check(&s, &plan, &inner, false, &mut info) {
            Ok(()) => Res::Ok(info),
            Err((sig, m)) => fail(&sig, m, &desc),
        }
    })
}

fn adaptive(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let mut s = decode(t, &CaseCfg { table_cfg: TableCfg { max_rows: 30, zero_demands: true, ..Default::default() }, adaptive: true, ..Default::default() });
    if t.chance(1, 4) {
        s.opts.max_tasks = t.range(1, 8);
    }
    s.opts.metrics = true;
    let inner = gen_inner(t);
    let desc = format!("{}\ninner demands {inner:?}", s.describe());
    let d = desc.clone();
    guard(s.threads, &d, async move {
        let exp = std::panic::AssertUnwindSafe(expected(&s.tables, &s.query)).catch_unwind().await.unwrap_or_else(|p| panicked(p));
        let exp = match exp {
            Ok(e) => e,
            Err(e) => return Res::Discard(format!("reference: {}", sig_of_error(&e.to_string()))),
        };
        if exp.work / s.opts.batch_size.min(if s.opts.shuffle_batch > 0 { s.opts.shuffle_batch } else { 20 }).clamp(1, 20) > 3000 {
            return Res::Discard("too much work".into());
        }
        let c = Cluster::start(ClusterCfg { workers: s.workers, ..Default::default() });
        let ctx = with_inner(c.session_builder(&s.opts), &inner);
        for tb in &s.tables {
            ctx.register_table(tb.name.as_str(), tb.provider()).unwrap();
        }
        let text = s.query.sql();
        let out = std::panic::AssertUnwindSafe(run(&ctx, &text)).catch_unwind();
        let out = match tokio::time::timeout(Duration::from_secs(20), out).await {
            Err(_) => return fail("query does not end", "", &desc),
            Ok(r) => r.unwrap_or_else(|p| panicked(p)),
        };
        let plan = match out {
            Ok((_, p)) => p,
            Err(e) => {
                let sig = sig_of_error(&e.to_string());
                let plan = planned(&ctx, &text).await;
                return match upstream_excuse(&s, &exp, &sig, &e.to_string(), plan.as_ref()).await {
                    Some(why) => Res::Discard(why),
                    None => fail(&sig, format!("query failed: {e}"), &desc),
                };
            }
        };
        let mut info = Info { desc: desc.clone(), ..Default::default() };
        if let Err(m) = task_bounds(&c, &s.opts, s.workers) {
            return fail("task counts sent", m, &desc);
        }
        let shown = if plan.name() == "DistributedExec" {
            let a = rewrite_distributed_plan_with_metrics(Arc::clone(&plan), DistributedMetricsFormat::Aggregated);
            match tokio::time::timeout(Duration::from_secs(6), a).await {
                Ok(Ok(p)) => p,
                Ok(Err(e)) => return fail("annotation fails", e.to_string(), &desc),
                // counted by C12
                Err(_) => return Res::Discard("annotation does not end".into()),
            }
        } else {
            plan
        };
        match check(&s, &shown, &inner, true, &mut info) {
            Ok(()) => Res::Ok(info),
            Err((sig, m)) => fail(&sig, m, &desc),
        }
    })
}

pub fn property() -> Property {
    Property {
        id: "C09",
        rule: "the plan has a network boundary",
        tape_len: 900,
        quick: 14_000,
        thorough: 400_000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["a stage's task count is predicted where the final plan shows every demand; otherwise it is bounded"],
        parts: vec![Part { name: "static", weight: 5, run: statics }, Part { name: "adaptive", weight: 1, run: adaptive }],
    }
}

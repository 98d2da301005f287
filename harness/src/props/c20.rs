//! C20: hand-placed network boundaries are finalised without changing the result.
use super::qcase::*;
use crate::cluster::*;
use crate::oracle::*;
use crate::place::*;
use crate::runner::{Info, Part, Property, Res};
use crate::scan::as_vscan;
use crate::sql::{GenCfg, TableCfg};
use crate::tape::Tape;
use datafusion::common::config::ConfigOptions;
use datafusion::common::{JoinType, Result};
use datafusion::execution::SessionState;
use datafusion::physical_optimizer::PhysicalOptimizerRule;
use datafusion::physical_optimizer::sanity_checker::SanityCheckPlan;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::joins::{CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
use datafusion::physical_plan::{Distribution, ExecutionPlan, ExecutionPlanProperties, Partitioning};
use datafusion::prelude::SessionContext;
use datafusion_distributed::{BroadcastExec, NetworkBroadcastExec, NetworkCoalesceExec, NetworkShuffleExec, display_plan_ascii};
use futures::FutureExt;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

type Plan = Arc<dyn ExecutionPlan>;

/// A boundary that was placed: kind, producer tasks, consumer tasks.
type Placed = (&'static str, usize, usize);

#[derive(Debug)]
struct PlaceRule {
    tape: Vec<u32>,
    placed: Arc<Mutex<Vec<Placed>>>,
    valid: Arc<Mutex<std::result::Result<(), String>>>,
}

fn broadcast_join(plan: &Plan) -> bool {
    let safe = |j: &JoinType| matches!(j, JoinType::Inner | JoinType::Right | JoinType::RightSemi | JoinType::RightAnti | JoinType::RightMark);
    if let Some(h) = plan.downcast_ref::<HashJoinExec>() {
        return *h.partition_mode() == PartitionMode::CollectLeft && safe(h.join_type());
    }
    if let Some(n) = plan.downcast_ref::<NestedLoopJoinExec>() {
        return safe(n.join_type());
    }
    plan.is::<CrossJoinExec>()
}

fn hash_repartition(plan: &Plan) -> bool {
    plan.downcast_ref::<RepartitionExec>().is_some_and(|r| matches!(r.partitioning(), Partitioning::Hash(_, _)))
}

fn requirements(plan: &Plan) -> Vec<Distribution> {
    let r = plan.input_distribution_requirements();
    (0..plan.children().len()).map(|i| r.child_distribution(i).cloned().unwrap_or(Distribution::UnspecifiedDistribution)).collect()
}

const UNARY: [&str; 11] =
    ["FilterExec", "ProjectionExec", "AggregateExec", "SortExec", "PartialSortExec", "CoalesceBatchesExec", "LocalLimitExec", "BoundedWindowAggExec", "WindowAggExec", "UnnestExec", "RepartitionExec"];
const NARY: [&str; 4] = ["UnionExec", "InterleaveExec", "HashJoinExec", "SortMergeJoinExec"];

fn single_fetch(plan: &Plan) -> bool {
    plan.fetch().is_some() && plan.output_partitioning().partition_count() == 1
}

/// Equal hash keys of this output are in the same partition because of a hash repartition below.
fn colocated(plan: &Plan) -> bool {
    if hash_repartition(plan) {
        return plan.output_ordering().is_none();
    }
    if plan.is::<RepartitionExec>() || plan.children().is_empty() || !(UNARY.contains(&plan.name()) || NARY.contains(&plan.name())) {
        return false;
    }
    plan.name() != "UnionExec" && !broadcast_join(plan) && plan.children().into_iter().all(colocated)
}

/// Can the plan run in several tasks that together produce its rows exactly once?
fn spreadable(plan: &Plan) -> bool {
    if as_vscan(plan).is_some() {
        return true;
    }
    if plan.children().is_empty() || single_fetch(plan) {
        return false;
    }
    if hash_repartition(plan) {
        return plan.output_ordering().is_none();
    }
    if broadcast_join(plan) {
        return spreadable(plan.children()[1]);
    }
    if plan.downcast_ref::<HashJoinExec>().is_some_and(|h| *h.partition_mode() != PartitionMode::Partitioned) {
        return false;
    }
    if !(UNARY.contains(&plan.name()) || NARY.contains(&plan.name())) {
        return false;
    }
    requirements(plan).iter().zip(plan.children()).all(|(d, c)| match d {
        Distribution::UnspecifiedDistribution => spreadable(c),
        Distribution::SinglePartition => false,
        _ => colocated(c) && spreadable(c),
    })
}

struct Placer<'a> {
    t: Tape<'a>,
    placed: Vec<Placed>,
}

impl Placer<'_> {
    /// Task count of a stage below, for a plan that becomes its top.
    fn tasks(&mut self, plan: &Plan) -> usize {
        let n = [2, 3, 1, 4, 5][self.t.weighted(&[4, 3, 2, 1, 1])];
        if spreadable(plan) { n } else { 1 }
    }

    fn coalesce(&mut self, plan: &Plan, consumers: usize) -> Result<Plan> {
        let n = self.tasks(plan);
        if n > 2 && self.t.chance(1, 4) {
            // a tree: n -> m -> consumers
            let m = self.t.range(1, 3);
            let p = self.go(plan, n, true)?;
            self.placed.push(("NetworkCoalesceExec", n, m));
            self.placed.push(("NetworkCoalesceExec", m, consumers));
            let low = Arc::new(NetworkCoalesceExec::try_new(p, n, m)?);
            return Ok(Arc::new(NetworkCoalesceExec::try_new(low, m, consumers)?));
        }
        let p = self.go(plan, n, true)?;
        self.placed.push(("NetworkCoalesceExec", n, consumers));
        Ok(Arc::new(NetworkCoalesceExec::try_new(p, n, consumers)?))
    }

    /// The plan as part of a stage of `tasks` tasks. `free`: nothing above relies on how the rows are
    /// distributed over partitions.
    fn go(&mut self, plan: &Plan, tasks: usize, free: bool) -> Result<Plan> {
        if free && self.t.chance(1, 6) && !plan.children().is_empty() {
            return self.coalesce(plan, tasks);
        }
        if plan.children().is_empty() {
            return Ok(Arc::clone(plan));
        }
        if hash_repartition(plan) && plan.output_ordering().is_none() && (tasks > 1 || self.t.chance(1, 2)) {
            let child = plan.children()[0];
            let n = self.tasks(child);
            let c = self.go(child, n, true)?;
            let r = Arc::clone(plan).with_new_children(vec![c])?;
            self.placed.push(("NetworkShuffleExec", n, tasks));
            return Ok(Arc::new(NetworkShuffleExec::try_new(r, n)?));
        }
        if broadcast_join(plan) && (tasks > 1 || self.t.chance(1, 3)) {
            let (left, right) = (plan.children()[0], plan.children()[1]);
            let inner = match left.downcast_ref::<CoalescePartitionsExec>() {
                Some(c) if c.fetch().is_none() => Arc::clone(c.input()),
                _ => Arc::clone(left),
            };
            let n = self.tasks(&inner);
            let b = self.go(&inner, n, false)?;
            self.placed.push(("NetworkBroadcastExec", n, tasks));
            let b: Plan = Arc::new(NetworkBroadcastExec::try_new(Arc::new(BroadcastExec::new(b, tasks)), n)?);
            let b: Plan = Arc::new(CoalescePartitionsExec::new(b));
            let r = self.go(right, tasks, free && !single_fetch(plan))?;
            return Arc::clone(plan).with_new_children(vec![b, r]);
        }
        let collect = plan.is::<CoalescePartitionsExec>() || plan.is::<SortPreservingMergeExec>();
        let mut children = vec![];
        for (d, c) in requirements(plan).iter().zip(plan.children()) {
            let new = if collect && self.t.chance(4, 5) {
                self.coalesce(c, tasks)?
            } else {
                let free = collect || (plan.is::<RepartitionExec>() && !matches!(plan.output_partitioning(), Partitioning::Hash(_, 0))) || (free && matches!(d, Distribution::UnspecifiedDistribution));
                self.go(c, tasks, free && !single_fetch(plan))?
            };
            children.push(new);
        }
        Arc::clone(plan).with_new_children(children)
    }
}

impl PhysicalOptimizerRule for PlaceRule {
    fn optimize(&self, plan: Plan, cfg: &ConfigOptions) -> Result<Plan> {
        let mut p = Placer { t: Tape::new(&self.tape), placed: vec![] };
        let out = p.go(&plan, 1, false)?;
        // Boundaries declare less than what is below them (orderings, constants...): the placement
        // is up to its author, it needs to be a valid plan.
        *self.valid.lock().unwrap() = SanityCheckPlan::new().optimize(Arc::clone(&out), cfg).map(|_| ()).map_err(|e| e.to_string());
        *self.placed.lock().unwrap() = p.placed;
        Ok(out)
    }
    fn name(&self) -> &str {
        "place"
    }
    fn schema_check(&self) -> bool {
        false
    }
}

fn session(cluster: &Cluster, o: &Opts, rule: PlaceRule) -> SessionContext {
    let state: SessionState = cluster.session_builder(o).with_physical_optimizer_rule(Arc::new(rule)).build();
    SessionContext::new_with_state(state)
}

fn case(tape: &[u32]) -> Res {
    let (a, b) = tape.split_at(tape.len().min(160));
    let t = &mut Tape::new(a);
    let mut s = decode(t, &CaseCfg { gen_cfg: GenCfg { depth: 1, max_joins: 2, ..Default::default() }, table_cfg: TableCfg::default(), ..Default::default() });
    s.opts.max_tasks = 0;
    let desc = s.describe();
    let b = b.to_vec();
    let d2 = desc.clone();
    guard(s.threads, &d2, async move {
        let exp = std::panic::AssertUnwindSafe(expected(&s.tables, &s.query)).catch_unwind().await;
        let exp = match exp.unwrap_or_else(|p| panicked(p)) {
            Ok(e) => e,
            Err(e) => return Res::Discard(format!("reference: {}", sig_of_error(&e.to_string()))),
        };
        if exp.work / s.opts.batch_size.clamp(1, 20) > 5_000 {
            return Res::Discard("too much work".into());
        }
        let cluster = Cluster::start(ClusterCfg { workers: s.workers, ..Default::default() });
        let placed: Arc<Mutex<Vec<Placed>>> = Default::default();
        let valid = Arc::new(Mutex::new(Ok(())));
        let ctx = session(&cluster, &s.opts, PlaceRule { tape: b, placed: Arc::clone(&placed), valid: Arc::clone(&valid) });
        for t in &s.tables {
            ctx.register_table(t.name.as_str(), t.provider()).unwrap();
        }
        let sql = s.query.sql();
        let mut at = None;
        let out = std::panic::AssertUnwindSafe(async {
            let plan = ctx.sql(&sql).await?.create_physical_plan().await?;
            at = Some(Arc::clone(&plan));
            run_plan(&ctx, &plan).await
        })
        .catch_unwind()
        .await
        .unwrap_or_else(|p| panicked(p));
        let placed = placed.lock().unwrap().clone();
        if valid.lock().unwrap().is_err() {
            return Res::Discard("invalid placement".into());
        }
        let desc = match &at {
            Some(p) => format!("{desc}\nplaced: {placed:?}\n{}", display_plan_ascii(p.as_ref(), false)),
            None => format!("{desc}\nplaced: {placed:?}"),
        };
        let failure = match out {
            Ok(got) => match compare(&s.query, &exp, &got) {
                Ok(()) => None,
                Err((k, m)) => Some((format!("mismatch:{k}"), m)),
            },
            Err(e) => Some((err_sig(&e), format!("query failed: {e}"))),
        };
        if let Some((sig, msg)) = failure {
            if at.as_ref().is_some_and(upstream_ordering_defect) {
                return Res::Discard("upstream defect".into());
            }
            let like = vanilla_like(&s.tables, &s.opts);
            let alone = std::panic::AssertUnwindSafe(run(&like, &sql)).catch_unwind().await.unwrap_or_else(|p| panicked(p));
            return match alone {
                Ok((_, single)) if sig == "mismatch:order" && top_sort_keys(&single) < s.query.order.len() => Res::Discard("single-node planner drops sort keys".into()),
                Ok((a, _)) if compare(&s.query, &exp, &a).is_err() => Res::Discard("single-node DataFusion disagrees with itself".into()),
                Ok(_) => fail(&sig, msg, &desc),
                Err(e) => Res::Discard(format!("single-node: {}", sig_of_error(&e.to_string()))),
            };
        }
        let Some(plan) = at else { return Res::Discard("no plan".into()) };
        if placed.is_empty() {
            return Res::Ok(Info { desc, ..Default::default() });
        }
        // what is left of the placed boundaries
        let mut want: BTreeMap<(String, usize), isize> = BTreeMap::new();
        for (k, p, _) in placed.iter().filter(|x| x.1 != 1 || x.2 != 1) {
            *want.entry((k.to_string(), *p)).or_default() += 1;
        }
        let mut have: BTreeMap<(String, usize), isize> = BTreeMap::new();
        for (k, p) in boundaries(&plan) {
            *have.entry((k, p)).or_default() += 1;
        }
        if want != have {
            return fail("boundaries changed", format!("placed {want:?}, the plan has {have:?}"), &desc);
        }
        let mut nums = std::collections::BTreeSet::new();
        let mut dup = None;
        walk(&plan, &mut |p| {
            use datafusion_distributed::NetworkBoundaryExt;
            if let Some(b) = p.as_network_boundary()
                && !nums.insert(b.input_stage().num())
            {
                dup = Some(b.input_stage().num());
            }
        });
        if let Some(n) = dup {
            return fail("stage number used twice", format!("stage {n}"), &desc);
        }
        let o = Opts { max_tasks: usize::MAX, ..s.opts.clone() };
        if let Err(m) = task_bounds(&cluster, &o, s.workers) {
            return fail("tasks sent", m, &desc);
        }
        let mut info = Info { desc, ..Default::default() };
        info.nontrivial = !have.is_empty();
        for (k, _) in have.keys() {
            if !info.classes.contains(k) {
                info.class(k.clone());
            }
        }
        if placed.iter().any(|x| x.1 == 1 && x.2 == 1) {
            info.class("elided boundary");
        }
        if placed.iter().any(|x| x.2 > 1 && x.1 > 1) {
            info.class("several tasks on both sides");
        }
        Res::Ok(info)
    })
}

pub fn walk(plan: &Plan, f: &mut impl FnMut(&Plan)) {
    f(plan);
    for c in plan.children() {
        walk(c, f);
    }
}

/// Boundaries over inputs they cannot have are rejected when they are built.
fn reject(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let data = id_table(t, 0, 10, false);
    let base = scan(&data, t.range(1, 4));
    let n = t.range(1, 5);
    let tasks = t.range(1, 5);
    let (k, text) = keys(t, &base);
    let mut plan = Arc::clone(&base);
    let mut names = vec![];
    for _ in 0..t.range(1, 3) {
        let (p, name): (Plan, _) = match t.below(5) {
            0 => (Arc::new(RepartitionExec::try_new(plan, Partitioning::RoundRobinBatch(n)).unwrap()), "round robin"),
            1 => (Arc::new(RepartitionExec::try_new(plan, Partitioning::Hash(k.clone(), n)).unwrap()), "hash"),
            2 => (Arc::new(CoalescePartitionsExec::new(plan)), "coalesce"),
            3 => (Arc::new(BroadcastExec::new(plan, n)), "broadcast"),
            _ => (Arc::new(RepartitionExec::try_new(plan, Partitioning::UnknownPartitioning(n)).unwrap()), "unknown"),
        };
        plan = p;
        names.push(name);
    }
    let top = *names.last().unwrap();
    let desc = format!("{names:?} key {text} n={n} tasks={tasks}");
    let s = NetworkShuffleExec::try_new(Arc::clone(&plan), tasks);
    if s.is_ok() != (top == "hash") {
        return fail("shuffle input", format!("a shuffle over {top} was {}", if s.is_ok() { "accepted" } else { "rejected" }), &desc);
    }
    let b = NetworkBroadcastExec::try_new(Arc::clone(&plan), tasks);
    if b.is_ok() != (top == "broadcast") {
        return fail("broadcast input", format!("a broadcast over {top} was {}", if b.is_ok() { "accepted" } else { "rejected" }), &desc);
    }
    if NetworkCoalesceExec::try_new(Arc::clone(&plan), tasks, 0).is_ok() {
        return fail("coalesce consumers", "a coalesce for no consumers was accepted", &desc);
    }
    if let Err(e) = NetworkCoalesceExec::try_new(plan, tasks, n) {
        return fail("coalesce input", format!("rejected: {e}"), &desc);
    }
    Res::Ok(Info { nontrivial: top != "hash", desc, classes: vec![format!("over {top}")] })
}

pub fn property() -> Property {
    Property {
        id: "C20",
        rule: "at least one placed boundary is left in the finalised plan (or a boundary had to be rejected)",
        tape_len: 240,
        quick: 9000,
        thorough: 200000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["boundaries are placed by an optimizer rule that knows which operators may run in several tasks", "single-node DataFusion with one partition is the reference"],
        parts: vec![Part { name: "placed", weight: 20, run: case }, Part { name: "reject", weight: 1, run: reject }],
    }
}

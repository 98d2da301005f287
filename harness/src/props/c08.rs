//! C08: isolated union branches run on exactly their share of tasks, each exactly once.
use super::qcase::{boundaries, panicked};
use crate::cluster::*;
use crate::data::*;
use crate::oracle::{Answer, run, run_plan};
use crate::place::*;
use crate::runner::{Info, Part, Property, Res};
use crate::scan::{Demand, VScan, VTable};
use crate::tape::Tape;
use datafusion::arrow::compute::SortOptions;
use datafusion::common::Result;
use datafusion::logical_expr::Operator;
use datafusion::physical_expr::expressions::{binary, lit};
use datafusion::physical_expr::{LexOrdering, PhysicalSortExpr};
use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode, PhysicalGroupBy};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::filter::FilterExec;
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::sorts::sort::SortExec;
use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
use datafusion::physical_plan::union::UnionExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties, Partitioning};
use datafusion::prelude::SessionContext;
use datafusion_distributed::display_plan_ascii;
use futures::FutureExt;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// What a branch does on top of its scan.
#[derive(Clone, Copy, Debug, PartialEq)]
pub(super) enum Wrap {
    None,
    Filter,
    RoundRobin(usize),
    Sort,
    /// a hash repartition: a stage of its own below the branch
    Group,
    Merge,
    Coalesce,
}

#[derive(Clone, Debug)]
pub(super) enum Branch {
    Scan { table: usize, parts: usize, wrap: Wrap },
    Union(Vec<Branch>),
}

pub(super) fn gen_branches(t: &mut Tape, tables: &mut Vec<Arc<TableData>>, depth: usize) -> Vec<Branch> {
    let n = [2, 3, 4, 5, 7, 9][t.weighted(&[4, 4, 2, 2, 1, 1])];
    let n = if depth > 0 { n.min(4) } else { n };
    let mut out = vec![];
    for _ in 0..n {
        if depth < 2 && t.chance(1, 6) {
            out.push(Branch::Union(gen_branches(t, tables, depth + 1)));
            continue;
        }
        let demand = match t.weighted(&[4, 3, 2]) {
            0 => Demand::Desired([1, 2, 3, 4, 8, 20][t.weighted(&[3, 3, 2, 1, 1, 1])]),
            1 => Demand::Maximum([1, 2, 3, 5][t.weighted(&[4, 2, 1, 1])]),
            _ => Demand::Unspecified,
        };
        let d = id_table(t, tables.len(), 12, false);
        // a table of its own: nothing else holds it yet
        let mut d = Arc::try_unwrap(d).unwrap_or_else(|_| unreachable!());
        d.demand = demand;
        tables.push(d.build());
        let wrap = match t.weighted(&[6, 1, 1, 1, 2, 1, 1]) {
            0 => Wrap::None,
            1 => Wrap::Filter,
            2 => Wrap::RoundRobin(t.range(1, 4)),
            3 => Wrap::Sort,
            4 => Wrap::Group,
            5 => Wrap::Merge,
            _ => Wrap::Coalesce,
        };
        out.push(Branch::Scan { table: tables.len() - 1, parts: t.range(1, 4), wrap });
    }
    out
}

fn by_id(p: &Arc<dyn ExecutionPlan>) -> LexOrdering {
    LexOrdering::new(vec![PhysicalSortExpr { expr: col(p, 1), options: SortOptions::default() }]).unwrap()
}

/// Groups that are single rows, so that the rows pass unchanged through a hash repartition.
fn grouped(p: Arc<dyn ExecutionPlan>, parts: usize) -> Result<Arc<dyn ExecutionPlan>> {
    let schema = p.schema();
    let by = |p: &Arc<dyn ExecutionPlan>| PhysicalGroupBy::new_single(vec![(col(p, 0), "k0".into()), (col(p, 1), "id".into())]);
    let a: Arc<dyn ExecutionPlan> = Arc::new(AggregateExec::try_new(AggregateMode::Partial, by(&p), vec![], vec![], p, Arc::clone(&schema))?);
    let r: Arc<dyn ExecutionPlan> = Arc::new(RepartitionExec::try_new(Arc::clone(&a), Partitioning::Hash(vec![col(&a, 0), col(&a, 1)], parts))?);
    Ok(Arc::new(AggregateExec::try_new(AggregateMode::FinalPartitioned, by(&r), vec![], vec![], r, schema)?))
}

pub(super) fn build(b: &Branch, tables: &[Arc<TableData>]) -> Result<Arc<dyn ExecutionPlan>> {
    Ok(match b {
        Branch::Union(v) => UnionExec::try_new(v.iter().map(|b| build(b, tables)).collect::<Result<Vec<_>>>()?)?,
        Branch::Scan { table, parts, wrap } => {
            let d = &tables[*table];
            let mut groups = vec![vec![]; *parts];
            for c in 0..d.chunks.len() {
                groups[c % parts].push(c);
            }
            let s: Arc<dyn ExecutionPlan> = Arc::new(VScan::new(Arc::clone(d), Some(vec![0, 3]), groups, vec![]));
            match wrap {
                Wrap::None => s,
                Wrap::Filter => Arc::new(FilterExec::try_new(binary(col(&s, 1), Operator::GtEq, lit(0i64), &s.schema())?, s)?),
                Wrap::RoundRobin(n) => Arc::new(RepartitionExec::try_new(s, Partitioning::RoundRobinBatch(*n))?),
                Wrap::Sort => Arc::new(SortExec::new(by_id(&s), s).with_preserve_partitioning(true)),
                Wrap::Group => grouped(s, 3)?,
                Wrap::Merge => {
                    let o = by_id(&s);
                    let s: Arc<dyn ExecutionPlan> = Arc::new(SortExec::new(o.clone(), s).with_preserve_partitioning(true));
                    Arc::new(SortPreservingMergeExec::new(o, s))
                }
                Wrap::Coalesce => Arc::new(CoalescePartitionsExec::new(s)),
            }
        }
    })
}

/// Every chunk of the table was read once, by tasks 0..n with the same idea of n; returns n.
fn share(d: &TableData) -> std::result::Result<usize, String> {
    let e = d.execs.lock().unwrap().clone();
    let counts: BTreeSet<usize> = e.iter().map(|e| e.tasks).collect();
    if counts.len() != 1 {
        return Err(format!("{} was executed with task counts {counts:?}", d.name));
    }
    let n = *counts.first().unwrap();
    let tasks: BTreeSet<usize> = e.iter().map(|e| e.task).collect();
    if tasks != (0..n).collect() {
        return Err(format!("{} was executed by tasks {tasks:?} of {n}", d.name));
    }
    let mut places = BTreeMap::new();
    let mut chunks = BTreeMap::new();
    for x in &e {
        *places.entry((x.task, x.partition)).or_insert(0) += 1;
        for c in &x.chunks {
            *chunks.entry(*c).or_insert(0) += 1;
        }
    }
    if let Some((k, n)) = places.iter().find(|p| *p.1 > 1) {
        return Err(format!("{} was executed {n} times for task {} partition {}", d.name, k.0, k.1));
    }
    if chunks.len() != d.chunks.len() || chunks.values().any(|n| *n != 1) {
        return Err(format!("chunks of {} read: {chunks:?} of {}", d.name, d.chunks.len()));
    }
    Ok(n)
}

/// Compares the shares of the branches of one union.
fn check_shares(branches: &[Branch], tables: &[Arc<TableData>], shares: &[usize], limit: usize) -> std::result::Result<(), String> {
    let mut simple = vec![];
    for b in branches {
        match b {
            Branch::Union(v) => check_shares(v, tables, shares, limit)?,
            Branch::Scan { table, wrap, .. } => {
                let n = shares[*table];
                let d = &tables[*table];
                if let Demand::Maximum(m) = d.demand
                    && n > m
                {
                    return Err(format!("{} runs in {n} tasks, its maximum is {m}", d.name));
                }
                if matches!(wrap, Wrap::None | Wrap::Filter | Wrap::RoundRobin(_) | Wrap::Sort) {
                    simple.push((*table, d.demand, n));
                }
            }
        }
    }
    for (a, da, na) in &simple {
        for (b, db, nb) in &simple {
            let (Demand::Desired(x), Demand::Desired(y)) = (da, db) else { continue };
            // a demand beyond the limit of a stage is the limit
            if *x.min(&limit) > *y.min(&limit) && na < nb {
                return Err(format!("{} demands {x} tasks and got {na}, {} demands {y} and got {nb}", tables[*a].name, tables[*b].name));
            }
        }
    }
    Ok(())
}

pub(super) fn opts(t: &mut Tape, workers: usize) -> Opts {
    let mut o = gen_opts(t, workers);
    o.max_tasks = [0, 1, 2, 3, 5, 9][t.weighted(&[5, 1, 2, 2, 1, 1])];
    o.isolator = true;
    o.target_partitions = [3, 1, 2, 5][t.weighted(&[3, 1, 2, 1])];
    o.partial_reduce = t.chance(1, 5);
    o.broadcast = t.bool();
    o.card_factor = [1.0, 2.0, 1.5][t.weighted(&[3, 1, 1])];
    o
}

fn plans(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[3, 1])];
    let workers = [3, 2, 1, 4, 6, 10][t.weighted(&[3, 3, 1, 2, 2, 1])];
    let o = opts(t, workers);
    let root = t.weighted(&[4, 1, 2, 1]);
    let mut tables = vec![];
    let branches = gen_branches(t, &mut tables, 0);
    let desc = format!(
        "workers={workers} threads={threads} root={} {o:?}\n{branches:?}\n{}",
        ["coalesce", "merge", "group", "filter"][root],
        tables.iter().map(|d| format!("{}: {:?} {} chunks ctx_mode={}", d.name, d.demand, d.chunks.len(), d.ctx_mode)).collect::<Vec<_>>().join("\n")
    );
    let d = desc.clone();
    guard(threads, &desc, async move {
        let built = (|| {
            let u = build(&Branch::Union(branches.clone()), &tables)?;
            Ok::<Arc<dyn ExecutionPlan>, datafusion::common::DataFusionError>(match root {
                0 => Arc::new(CoalescePartitionsExec::new(u)),
                1 => {
                    let s: Arc<dyn ExecutionPlan> = Arc::new(SortExec::new(by_id(&u), Arc::clone(&u)).with_preserve_partitioning(true));
                    Arc::new(SortPreservingMergeExec::new(by_id(&u), s))
                }
                2 => Arc::new(CoalescePartitionsExec::new(grouped(u, 4)?)),
                _ => {
                    let f: Arc<dyn ExecutionPlan> = Arc::new(FilterExec::try_new(binary(col(&u, 1), Operator::GtEq, lit(0i64), &u.schema())?, u)?);
                    Arc::new(CoalescePartitionsExec::new(f))
                }
            })
        })();
        let plan = match built {
            Ok(p) => p,
            Err(e) => return Res::Discard(format!("plan: {e}")),
        };
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let (got, plan) = match run_placed(&cluster, &o, plan).await {
            Ok(x) => x,
            Err(e) => return fail(&err_sig(&e), format!("failed: {e}"), &d),
        };
        let d = format!("{d}\n{}", display_plan_ascii(plan.as_ref(), false));
        let mut want = vec![];
        for data in &tables {
            want.extend(cols_rows(&data.chunks.iter().flatten().cloned().collect::<Vec<_>>(), &[0, 3]));
        }
        if let Some(m) = diff_multiset(&got.rows(), &want) {
            return fail("rows", m, &d);
        }
        let mut shares = vec![];
        for data in &tables {
            match share(data) {
                Ok(n) => shares.push(n),
                Err(m) => return fail("not exactly once", m, &d),
            }
        }
        let limit = if o.max_tasks == 0 { workers } else { o.max_tasks };
        if let Some(n) = shares.iter().find(|n| **n > limit) {
            return fail("share above the limit", format!("a branch has {n} tasks, the limit is {limit}"), &d);
        }
        if let Err(m) = check_shares(&branches, &tables, &shares, limit) {
            return fail("share", m, &d);
        }
        let text = display_plan_ascii(plan.as_ref(), false);
        let isolated = text.contains("DistributedUnionExec");
        let multi = boundaries(&plan).iter().any(|b| b.1 > 1);
        let mut info = Info { nontrivial: isolated && multi && !want.is_empty(), desc: d, ..Default::default() };
        if branches.iter().any(|b| matches!(b, Branch::Union(_))) {
            info.class("nested union");
        }
        if shares.iter().any(|n| *n > 1) {
            info.class("branch over several tasks");
        }
        if tables.len() > limit {
            info.class("more branches than tasks");
        }
        if branches.iter().any(|b| matches!(b, Branch::Scan { wrap: Wrap::Group | Wrap::Merge | Wrap::Coalesce, .. })) {
            info.class("branch with a stage of its own");
        }
        Res::Ok(info)
    })
}

/// A branch as SQL: every branch yields (a BIGINT, b BIGINT).
fn sql_branch(t: &mut Tape, i: usize, depth: usize) -> String {
    let (x, y) = (format!("t{i}"), format!("t{}", t.below(i + 1)));
    match t.weighted(&[4, 2, 3, 2, 2, 1, 1, if depth == 0 { 2 } else { 0 }, 1]) {
        0 => format!("SELECT k0 a, id b FROM {x}"),
        1 => format!("SELECT k0 a, id b FROM {x} WHERE k1 = {}", t.below(3)),
        2 => format!("SELECT k0 a, max(id) b FROM {x} GROUP BY k0"),
        3 => format!("SELECT {x}.k0 a, z.id b FROM {x} JOIN {y} z ON {x}.k0 = z.k1"),
        4 => format!("SELECT a, b FROM (SELECT k0 a, id b FROM {x} ORDER BY id LIMIT {})", t.below(9)),
        5 => format!("SELECT k0 a, row_number() OVER (PARTITION BY k0 ORDER BY id) b FROM {x}"),
        6 => format!("SELECT k0 a, id b FROM {x} WHERE k0 IN (SELECT k1 FROM {y})"),
        7 => {
            let op = ["UNION ALL", "UNION"][t.below(2)];
            let (p, q) = (sql_branch(t, i, 1), sql_branch(t, i, 1));
            format!("SELECT a, max(b) b FROM ({p} {op} {q}) GROUP BY a")
        }
        _ => format!("SELECT CAST(count(*) AS BIGINT) a, max(id) b FROM {x}"),
    }
}

fn differ(got: &Answer, want: &Answer) -> Option<(&'static str, String)> {
    if schema_sig(&got.schema) != schema_sig(&want.schema) {
        return Some(("schema", format!("{} instead of {}", schema_sig(&got.schema), schema_sig(&want.schema))));
    }
    diff_multiset(&got.rows(), &want.rows()).map(|m| ("rows", m))
}

fn sql(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[3, 1])];
    let workers = [3, 2, 1, 4, 6][t.weighted(&[3, 3, 1, 2, 2])];
    let mut o = opts(t, workers);
    if t.chance(1, 4) {
        o.dynamic = Some([1, 16, 300, 1 << 30][t.below(4)]);
    }
    for (k, v) in [("datafusion.optimizer.hash_join_single_partition_threshold", "0"), ("datafusion.optimizer.hash_join_single_partition_threshold_rows", "0")] {
        if t.bool() {
            o.df.push((k.into(), v.into()));
        }
    }
    let n = t.range(2, 5);
    let mut tables = vec![];
    let mut branches = vec![];
    for i in 0..n {
        let d = id_table(t, i, 15, false);
        let mut d = Arc::try_unwrap(d).unwrap_or_else(|_| unreachable!());
        d.demand = match t.weighted(&[3, 2, 1]) {
            0 => Demand::Desired(t.range(1, 6)),
            1 => Demand::Maximum(t.range(1, 4)),
            _ => Demand::Unspecified,
        };
        tables.push((d.build(), t.range(1, 4)));
        branches.push(sql_branch(t, i, 0));
    }
    let u = branches.join(["\nUNION ALL ", "\nUNION "][t.weighted(&[4, 1])]);
    let sql = match t.weighted(&[4, 2, 1, 1]) {
        0 => u,
        1 => format!("SELECT a, count(*) c, min(b) m FROM ({u}) GROUP BY a"),
        2 => format!("SELECT u.a, u.b, t0.id FROM ({u}) u JOIN t0 ON u.a = t0.k0"),
        _ => format!("SELECT count(*), sum(b) FROM ({u})"),
    };
    let desc = format!(
        "{sql}\nworkers={workers} threads={threads} {o:?}\n{}",
        tables.iter().map(|(d, p)| format!("{}: {:?} rows={:?} partitions={p} ctx_mode={}", d.name, d.demand, (0..d.chunks.len()).map(|c| d.chunk_rows(c)).collect::<Vec<_>>(), d.ctx_mode)).collect::<Vec<_>>().join("\n")
    );
    let d = desc.clone();
    guard(threads, &desc, async move {
        let register = |c: &SessionContext| {
            for (d, p) in &tables {
                c.register_table(d.name.as_str(), Arc::new(VTable { data: Arc::clone(d), partitions: *p })).unwrap();
            }
        };
        let reference = SessionContext::new_with_config(datafusion::prelude::SessionConfig::new().with_target_partitions(1));
        register(&reference);
        let want = match run(&reference, &sql).await {
            Ok(x) => x.0,
            Err(e) => return Res::Discard(format!("reference: {e}")),
        };
        for (d, _) in &tables {
            d.execs.lock().unwrap().clear();
        }
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let ctx = cluster.session(&o);
        register(&ctx);
        let mut planned = None;
        let got = std::panic::AssertUnwindSafe(async {
            let plan = ctx.sql(&sql).await?.create_physical_plan().await?;
            planned = Some(Arc::clone(&plan));
            run_plan(&ctx, &plan).await
        })
        .catch_unwind()
        .await
        .unwrap_or_else(|p| panicked(p));
        let text = planned.as_ref().map(|p| display_plan_ascii(p.as_ref(), false)).unwrap_or_default();
        let d = format!("{d}\n{text}");
        let failure = match &got {
            Ok(a) => differ(a, &want).map(|(s, m)| (format!("mismatch:{s}"), m)),
            Err(e) => Some((err_sig(e), e.to_string())),
        };
        if let Some((sig, msg)) = failure {
            let like = SessionContext::new_with_config(o.df_config());
            register(&like);
            return match run(&like, &sql).await {
                Ok((a, _)) if differ(&a, &want).is_some() => Res::Discard("single-node DataFusion disagrees with itself".into()),
                Ok(_) => fail(&sig, msg, &d),
                Err(e) => Res::Discard(format!("single-node: {e}")),
            };
        }
        let limit = if o.max_tasks == 0 { workers } else { o.max_tasks };
        for (data, _) in &tables {
            for e in data.execs.lock().unwrap().iter() {
                let m = match data.demand {
                    Demand::Maximum(m) => m.min(limit),
                    _ => limit,
                };
                if e.tasks > m {
                    return fail("share above the limit", format!("{} ran in {} tasks, its limit is {m}", data.name, e.tasks), &d);
                }
            }
        }
        let multi = planned.as_ref().is_some_and(|p| boundaries(p).iter().any(|b| b.1 > 1)) || o.dynamic.is_some();
        let mut info = Info { nontrivial: multi && text.contains("DistributedUnionExec") || o.dynamic.is_some(), desc: d, ..Default::default() };
        if o.dynamic.is_some() {
            info.class("adaptive");
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C08",
        rule: "a union with isolated branches is really run by several tasks",
        tape_len: 320,
        quick: 10000,
        thorough: 250000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["which branch runs where is observed at its scan: task index and task count of every execution"],
        parts: vec![Part { name: "plans", weight: 3, run: plans }, Part { name: "sql", weight: 2, run: sql }],
    }
}

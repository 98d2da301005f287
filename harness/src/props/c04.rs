//! C04: a network shuffle moves every row exactly once and co-locates equal keys.
use crate::cluster::*;
use crate::data::*;
use crate::place::*;
use crate::probe::*;
use crate::runner::{Info, Part, Property, Res};
use crate::tape::Tape;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::union::UnionExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use datafusion_distributed::{NetworkCoalesceExec, display_plan_ascii};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

struct Side {
    data: Arc<TableData>,
    producers: usize,
    /// second hop: (tasks, key text)
    log: Arc<ProbeLog>,
    keys: Vec<usize>,
}

fn case(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[2, 1])];
    let workers = t.range(1, 4);
    let opts = gen_opts(t, workers);
    let consumers = [2, 3, 1, 4, 5, 7][t.weighted(&[4, 3, 1, 2, 1, 1])];
    let parts = [2, 3, 1, 4, 5, 8][t.weighted(&[4, 3, 2, 2, 1, 1])];
    let sides = t.weighted(&[3, 2]) + 1;
    let mut desc = format!("workers={workers} threads={threads} consumers={consumers} partitions={parts} {opts:?}");
    let mut built = vec![];
    let mut inputs: Vec<Arc<dyn ExecutionPlan>> = vec![];
    // with two sides, both use the same key columns, so that they are co-partitioned
    let which = t.weighted(&[4, 2, 2, 1, 1]);
    let key_cols = [vec![0], vec![1], vec![0, 1], vec![1, 0], vec![0, 1, 2]][if sides > 1 { which.min(3) } else { which }].clone();
    for i in 0..sides {
        let ordered = t.chance(1, 5);
        let data = id_table(t, i, 40, ordered);
        let producers = [2, 3, 1, 4, 6][t.weighted(&[4, 3, 2, 2, 1])];
        let scan_parts = t.range(1, 4);
        let mut plan = scan(&data, scan_parts);
        let mut tasks = producers;
        let mut hops = String::new();
        if t.chance(1, 3) {
            // another shuffle below, over other keys
            let p0 = t.range(1, 5);
            let (k, text) = keys(t, &plan);
            plan = match shuffle(plan, k, p0, producers) {
                Ok(p) => p,
                Err(e) => return fail("placement rejected", e.to_string(), &desc),
            };
            tasks = t.range(1, 5);
            hops = format!(" first shuffled by ({text}) into {p0} partitions of {tasks} tasks");
        }
        let k = key_cols.iter().map(|c| col(&plan, *c)).collect();
        plan = match shuffle(plan, k, parts, tasks) {
            Ok(p) => p,
            Err(e) => return fail("placement rejected", e.to_string(), &desc),
        };
        let log = gen_log(t, consumers, parts, false, true);
        plan = probe(plan, &log);
        desc += &format!(
            "\n{}: rows/chunk={:?} scan_partitions={scan_parts} ordered={ordered} ctx_mode={} producers={producers}{hops} keys={key_cols:?} {}",
            data.name,
            (0..data.chunks.len()).map(|c| data.chunk_rows(c)).collect::<Vec<_>>(),
            data.ctx_mode,
            log_text(&log)
        );
        inputs.push(plan);
        built.push(Side { data, producers: tasks, log, keys: key_cols.clone() });
    }
    // unions need equal schemas; sides that differ are projected to the keys and the id
    let plan: Arc<dyn ExecutionPlan> = if sides == 1 {
        inputs.remove(0)
    } else {
        let inputs = inputs
            .into_iter()
            .map(|p| {
                let e = [0usize, 1, 3].map(|i| (col(&p, i), p.schema().field(i).name().clone())).to_vec();
                Arc::new(datafusion::physical_plan::projection::ProjectionExec::try_new(e, p).unwrap()) as Arc<dyn ExecutionPlan>
            })
            .collect();
        UnionExec::try_new(inputs).unwrap()
    };
    let plan: Arc<dyn ExecutionPlan> = Arc::new(NetworkCoalesceExec::try_new(plan, consumers, 1).unwrap());
    let plan: Arc<dyn ExecutionPlan> = Arc::new(CoalescePartitionsExec::new(plan));
    debug_assert_eq!(plan.output_partitioning().partition_count(), 1);
    let d = desc.clone();
    guard(threads, &desc, async move {
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let (answer, plan) = match run_placed(&cluster, &opts, plan).await {
            Ok(x) => x,
            Err(e) => return fail(&err_sig(&e), format!("failed: {e}"), &d),
        };
        let d = format!("{d}\n{}", display_plan_ascii(plan.as_ref(), false));
        let total: usize = built.iter().map(|s| s.data.total_rows()).sum();
        if answer.n() != total {
            return fail("rows of the query", format!("{} rows instead of {total}", answer.n()), &d);
        }
        let mut homes: BTreeMap<String, (usize, usize)> = BTreeMap::new();
        let mut homes_used = std::collections::BTreeSet::new();
        for s in &built {
            if let Err(m) = scanned_once(&s.data) {
                return fail("producer executed twice", m, &d);
            }
            let runs = s.log.runs();
            let mut seen = HashMap::new();
            let mut all = vec![];
            for r in &runs {
                if seen.insert(r.place(), ()).is_some() {
                    return fail("consumer executed twice", format!("{:?}", r.place()), &d);
                }
                if r.declared != parts || r.tasks != consumers || r.task >= consumers || r.partition >= parts {
                    return fail("consumer shape", format!("task {}/{} partition {}/{}", r.task, r.tasks, r.partition, r.declared), &d);
                }
                all.extend(r.rows());
                for (k, id) in cols_rows(&r.batches, &s.keys).into_iter().zip(cols_rows(&r.batches, &[3])) {
                    homes_used.insert(r.place());
                    let h = homes.entry(k.clone()).or_insert(r.place());
                    if *h != r.place() {
                        return fail("equal keys apart", format!("key {k} is in task/partition {h:?} and (id {id} of {}) in {:?}", s.data.name, r.place()), &d);
                    }
                }
            }
            if seen.len() != consumers * parts {
                return fail("consumer shape", format!("{} of {} partitions executed", seen.len(), consumers * parts), &d);
            }
            let want: Vec<_> = s.data.chunks.iter().flatten().cloned().collect();
            if let Some(m) = diff_multiset(&all, &rows(&want)) {
                return fail("rows across the shuffle", m, &d);
            }
        }
        let mut info = Info { desc: d, ..Default::default() };
        info.nontrivial = total > 1 && (consumers > 1 || built.iter().any(|s| s.producers > 1));
        info.class(format!("{sides} side(s)"));
        if homes.len() > 1 {
            info.class("several keys");
        }
        if homes_used.len() > 1 {
            info.class("several places used");
        }
        if homes.keys().any(|k| k.contains('∅')) {
            info.class("null keys");
        }
        if built.iter().any(|s| s.producers > consumers) {
            info.class("more producers than consumers");
        }
        if opts.budget < 4096 {
            info.class("tiny budget");
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C04",
        rule: "more than one row crossed a shuffle with more than one producer or consumer task",
        tape_len: 120,
        quick: 12000,
        thorough: 300000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["the boundary is driven through a user-placed plan on an in-memory gRPC cluster", "key equality is that of the canonical text of the key values; -0.0 is not generated"],
        parts: vec![Part { name: "shuffle", weight: 1, run: case }],
    }
}

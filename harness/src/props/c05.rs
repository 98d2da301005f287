//! C05: a network coalesce delivers every producer partition to exactly one consumer.
use crate::cluster::*;
use crate::data::*;
use crate::place::*;
use crate::runner::{Info, Part, Property, Res};
use crate::tape::Tape;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::{ExecutionPlanProperties, Partitioning};
use datafusion_distributed::{NetworkCoalesceExec, display_plan_ascii};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

fn case(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[2, 1])];
    let workers = t.range(1, 4);
    let opts = gen_opts(t, workers);
    let producers = [3, 2, 1, 4, 5, 7][t.weighted(&[4, 3, 1, 2, 2, 1])];
    let consumers = [2, 1, 3, 4, 6][t.weighted(&[4, 3, 3, 2, 1])];
    let data = id_table(t, 0, 40, false);
    let scan_parts = t.range(1, 4);
    let mut plan = scan(&data, scan_parts);
    let below = t.weighted(&[4, 2, 1]);
    let mut desc = format!(
        "workers={workers} threads={threads} producers={producers} consumers={consumers} rows/chunk={:?} scan_partitions={scan_parts} {opts:?}",
        (0..data.chunks.len()).map(|c| data.chunk_rows(c)).collect::<Vec<_>>()
    );
    match below {
        0 => {}
        1 => {
            // the producers are themselves fed by a shuffle
            let p0 = t.range(1, 4);
            let m = t.range(1, 4);
            let (k, text) = keys(t, &plan);
            plan = match shuffle(plan, k, p0, m) {
                Ok(p) => p,
                Err(e) => return fail("placement rejected", e.to_string(), &desc),
            };
            desc += &format!(" shuffle({text}) {m} tasks -> {p0} partitions");
        }
        _ => {
            let n = t.range(1, 4);
            let m = t.range(1, 4);
            plan = Arc::new(NetworkCoalesceExec::try_new(plan, m, producers).unwrap());
            plan = Arc::new(RepartitionExec::try_new(plan, Partitioning::RoundRobinBatch(n)).unwrap());
            desc += &format!(" coalesce from {m} tasks, round robin into {n}");
        }
    }
    let pparts = plan.output_partitioning().partition_count();
    let a = gen_log(t, producers, pparts, false, false);
    plan = probe(plan, &a);
    let group = producers.div_ceil(consumers);
    let b = gen_log(t, consumers, group * pparts, false, true);
    desc += &format!("\nproducer probe {}\nconsumer probe {}", log_text(&a), log_text(&b));
    plan = Arc::new(NetworkCoalesceExec::try_new(plan, producers, consumers).unwrap());
    plan = probe(plan, &b);
    if consumers > 1 {
        plan = Arc::new(NetworkCoalesceExec::try_new(plan, consumers, 1).unwrap());
    }
    plan = Arc::new(CoalescePartitionsExec::new(plan));
    let d = desc.clone();
    guard(threads, &desc, async move {
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let (answer, plan) = match run_placed(&cluster, &opts, plan).await {
            Ok(x) => x,
            Err(e) => return fail(&err_sig(&e), format!("failed: {e}"), &d),
        };
        let d = format!("{d}\n{}", display_plan_ascii(plan.as_ref(), false));
        let want: Vec<_> = data.chunks.iter().flatten().cloned().collect();
        if let Some(m) = diff_multiset(&answer.rows(), &rows(&want)) {
            return fail("rows of the query", m, &d);
        }
        if let Err(m) = scanned_once(&data) {
            return fail("producer executed twice", m, &d);
        }
        // producer sequences by place
        let mut made: BTreeMap<(usize, usize), Vec<String>> = BTreeMap::new();
        for r in a.runs() {
            if r.declared != pparts || r.tasks != producers {
                return fail("producer shape", format!("task {}/{} partition {}/{}", r.task, r.tasks, r.partition, r.declared), &d);
            }
            if made.insert(r.place(), r.rows()).is_some() {
                return fail("producer executed twice", format!("{:?}", r.place()), &d);
            }
        }
        if made.len() != producers * pparts {
            return fail("producer shape", format!("{} of {} producer partitions executed", made.len(), producers * pparts), &d);
        }
        let first: BTreeMap<String, (usize, usize)> = made.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (v[0].clone(), *k)).collect();
        let runs = b.runs();
        let mut places = BTreeSet::new();
        let mut taken = BTreeSet::new();
        for r in &runs {
            if !places.insert(r.place()) {
                return fail("consumer executed twice", format!("{:?}", r.place()), &d);
            }
            // when no boundary is left the producers are the consumers
            if r.declared != group * pparts || r.tasks != consumers {
                return fail("consumer shape", format!("task {}/{} partition {}/{}, expected {} partitions", r.task, r.tasks, r.partition, r.declared, group * pparts), &d);
            }
            let got = r.rows();
            if got.is_empty() {
                continue;
            }
            let Some(src) = first.get(&got[0]) else {
                return fail("order within a partition", format!("consumer {:?} starts with {} which starts no producer partition", r.place(), got[0]), &d);
            };
            if got != made[src] {
                return fail("rows of a partition", format!("consumer {:?} has {} rows of producer {src:?} which made {}; got {:?} want {:?}", r.place(), got.len(), made[src].len(), &got[..got.len().min(8)], &made[src][..made[src].len().min(8)]), &d);
            }
            if !taken.insert(*src) {
                return fail("partition delivered twice", format!("producer {src:?} again at {:?}", r.place()), &d);
            }
        }
        if taken.len() != first.len() {
            return fail("partition lost", format!("{} of {} non-empty producer partitions delivered", taken.len(), first.len()), &d);
        }
        if places.len() != consumers * group * pparts {
            return fail("consumer shape", format!("{} of {} consumer partitions executed", places.len(), consumers * group * pparts), &d);
        }
        let mut info = Info { desc: d, ..Default::default() };
        info.nontrivial = first.len() > 1 && (producers > 1 || consumers > 1);
        if !producers.is_multiple_of(consumers) {
            info.class("uneven groups");
        }
        if producers < consumers {
            info.class("fewer producers than consumers");
        }
        if first.len() > 3 {
            info.class("4+ non-empty partitions");
        }
        info.class(["over a scan", "over a shuffle", "over a round robin repartition"][below]);
        Res::Ok(info)
    })
}

/// A coalescing boundary directly over any kind of operator: nothing lost, whatever its head is.
fn heads(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let workers = t.range(1, 4);
    let opts = gen_opts(t, workers);
    let producers = t.range(1, 5);
    let consumers = t.range(1, 4);
    let data = id_table(t, 0, 30, false);
    let scan_parts = t.range(1, 4);
    let mut plan = scan(&data, scan_parts);
    let head = t.weighted(&[3, 2, 2]);
    let n = t.range(1, 5);
    let text;
    plan = match head {
        0 => {
            text = format!("round robin into {n}");
            Arc::new(RepartitionExec::try_new(plan, Partitioning::RoundRobinBatch(n)).unwrap())
        }
        1 => {
            let (k, s) = keys(t, &plan);
            text = format!("hash({s}) into {n}");
            Arc::new(RepartitionExec::try_new(plan, Partitioning::Hash(k, n)).unwrap())
        }
        _ => {
            text = "plain".into();
            plan
        }
    };
    let parts = plan.output_partitioning().partition_count();
    plan = Arc::new(NetworkCoalesceExec::try_new(plan, producers, consumers).unwrap());
    let log = gen_log(t, consumers, producers.div_ceil(consumers) * parts, false, true);
    plan = probe(plan, &log);
    if consumers > 1 {
        plan = Arc::new(NetworkCoalesceExec::try_new(plan, consumers, 1).unwrap());
    }
    plan = Arc::new(CoalescePartitionsExec::new(plan));
    let desc = format!(
        "head: {text} workers={workers} producers={producers} consumers={consumers} rows/chunk={:?} scan_partitions={scan_parts} {opts:?} {}",
        (0..data.chunks.len()).map(|c| data.chunk_rows(c)).collect::<Vec<_>>(),
        log_text(&log)
    );
    let d = desc.clone();
    guard(0, &desc, async move {
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let (answer, plan) = match run_placed(&cluster, &opts, plan).await {
            Ok(x) => x,
            Err(e) => return fail(&err_sig(&e), format!("failed: {e}"), &d),
        };
        let d = format!("{d}\n{}", display_plan_ascii(plan.as_ref(), false));
        let want: Vec<_> = data.chunks.iter().flatten().cloned().collect();
        if let Some(m) = diff_multiset(&answer.rows(), &rows(&want)) {
            return fail("rows of the query", m, &d);
        }
        let counts: BTreeSet<usize> = log.runs().iter().map(|r| r.declared).collect();
        if counts.len() > 1 {
            return fail("consumer shape", format!("consumers expose {counts:?} partitions"), &d);
        }
        Res::Ok(Info { nontrivial: answer.n() > 1 && producers > 1, desc: d, classes: vec![format!("head {head}")] })
    })
}

pub fn property() -> Property {
    Property {
        id: "C05",
        rule: "more than one non-empty producer partition (or more than one row) crossed a boundary with more than one task",
        tape_len: 120,
        quick: 12000,
        thorough: 300000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["the boundary is driven through a user-placed plan on an in-memory gRPC cluster"],
        parts: vec![Part { name: "coalesce", weight: 3, run: case }, Part { name: "heads", weight: 1, run: heads }],
    }
}

//! C06: a network broadcast gives every consumer task the complete build side once.
use crate::cluster::*;
use crate::data::*;
use crate::place::*;
use crate::probe::*;
use crate::runner::{Info, Part, Property, Res};
use crate::tape::Tape;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::ExecutionPlanProperties;
use datafusion_distributed::{BroadcastExec, NetworkBroadcastExec, NetworkCoalesceExec, display_plan_ascii};
use std::collections::BTreeMap;
use std::sync::Arc;

fn case(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[2, 1])];
    let workers = t.range(1, 4);
    let opts = gen_opts(t, workers);
    let producers = [2, 1, 3, 4][t.weighted(&[3, 3, 2, 1])];
    let consumers = [2, 3, 1, 4, 6][t.weighted(&[4, 3, 1, 2, 1])];
    let data = id_table(t, 0, 60, false);
    let scan_parts = t.range(1, 4);
    let mut plan = scan(&data, scan_parts);
    let mut desc = format!(
        "workers={workers} threads={threads} producers={producers} consumers={consumers} rows/chunk={:?} scan_partitions={scan_parts} ctx_mode={} {opts:?}",
        (0..data.chunks.len()).map(|c| data.chunk_rows(c)).collect::<Vec<_>>(),
        data.ctx_mode
    );
    if t.chance(1, 4) {
        let p0 = t.range(1, 4);
        let m = t.range(1, 4);
        let (k, text) = keys(t, &plan);
        plan = match shuffle(plan, k, p0, m) {
            Ok(p) => p,
            Err(e) => return fail("placement rejected", e.to_string(), &desc),
        };
        desc += &format!(" over shuffle({text}) {m} tasks -> {p0} partitions");
    }
    let parts = plan.output_partitioning().partition_count();
    let a = ProbeLog::plain();
    plan = probe(plan, &a);
    let declared = [consumers, 1][t.weighted(&[2, 1])];
    plan = Arc::new(NetworkBroadcastExec::try_new(Arc::new(BroadcastExec::new(plan, declared)), producers).unwrap());
    let b = gen_log(t, consumers, parts, true, true);
    plan = probe(plan, &b);
    desc += &format!("\nconsumers: {}", log_text(&b));
    if consumers > 1 {
        plan = Arc::new(NetworkCoalesceExec::try_new(plan, consumers, 1).unwrap());
    }
    plan = Arc::new(CoalescePartitionsExec::new(plan));
    let d = desc.clone();
    guard(threads, &desc, async move {
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let (_, plan) = match run_placed(&cluster, &opts, plan).await {
            Ok(x) => x,
            Err(e) => return fail(&err_sig(&e), format!("failed: {e}"), &d),
        };
        let d = format!("{d}\n{}", display_plan_ascii(plan.as_ref(), false));
        if let Err(m) = scanned_once(&data) {
            return fail("producer executed twice", m, &d);
        }
        let mut made: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for r in a.runs() {
            *made.entry(r.place()).or_default() += 1;
            if r.tasks != producers || r.declared != parts {
                return fail("producer shape", format!("task {}/{} partition {}/{}", r.task, r.tasks, r.partition, r.declared), &d);
            }
        }
        if let Some((k, n)) = made.iter().find(|x| *x.1 > 1) {
            return fail("producer executed twice", format!("partition {k:?} was produced {n} times"), &d);
        }
        // what each partition of each producer task emits is the same for all consumers
        let all: Vec<_> = data.chunks.iter().flatten().cloned().collect();
        let all = rows(&all);
        let mut per_task: BTreeMap<usize, Vec<Run>> = BTreeMap::new();
        for r in b.runs() {
            if r.tasks != consumers || r.declared != parts {
                return fail("consumer shape", format!("task {}/{} partition {}/{}", r.task, r.tasks, r.partition, r.declared), &d);
            }
            per_task.entry(r.task).or_default().push(r);
        }
        let mut reference: BTreeMap<usize, Vec<String>> = BTreeMap::new();
        let mut full = 0;
        let mut lossy = false;
        for (task, runs) in &per_task {
            let mut got = vec![];
            let mut complete = runs.len() == parts;
            for r in runs {
                let rr = r.rows();
                if r.finished {
                    // equal content of the same partition in every consumer
                    let mut s = rr.clone();
                    s.sort();
                    let w = reference.entry(r.partition).or_insert_with(|| s.clone());
                    if *w != s {
                        return fail("consumers differ", format!("partition {} of task {task} has {} rows, another task got {}", r.partition, s.len(), w.len()), &d);
                    }
                } else {
                    complete = false;
                    lossy = true;
                }
                got.extend(rr);
            }
            if complete {
                full += 1;
                if let Some(m) = diff_multiset(&got, &all) {
                    return fail("rows of a consumer", format!("task {task}: {m}"), &d);
                }
            } else if let Some(m) = submultiset(&got, &all) {
                return fail("rows of a consumer", format!("task {task}: {m}"), &d);
            }
        }
        let mut info = Info { desc: d, ..Default::default() };
        info.nontrivial = consumers > 1 && all.len() > 1 && full > 0;
        if lossy {
            info.class("some consumers leave early");
        }
        if full > 1 {
            info.class("2+ complete consumers");
        }
        if producers > 1 {
            info.class("several producers");
        }
        if b.readers.values().any(|r| matches!(r, Reader::SlowMs(_))) {
            info.class("slow consumers");
        }
        if opts.budget < 4096 {
            info.class("tiny budget");
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C06",
        rule: "several consumer tasks, more than one row, at least one consumer reads everything",
        tape_len: 140,
        quick: 12000,
        thorough: 300000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["the boundary is driven through a user-placed plan on an in-memory gRPC cluster"],
        parts: vec![Part { name: "broadcast", weight: 1, run: case }],
    }
}

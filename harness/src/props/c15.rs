//! C15: workers and the client keep nothing after a query ends, however it ends.
use crate::cluster::*;
use crate::hist::*;
use crate::place::*;
use crate::runner::{Info, Part, Property, Res};
use crate::tape::Tape;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::empty::EmptyExec;
use std::sync::Arc;
use std::sync::atomic::{AtomicIsize, Ordering};
use std::time::{Duration, Instant};

fn gen_history(t: &mut Tape, workers: usize) -> Vec<Vec<Q>> {
    let cfg = HistCfg { max_rows: 80, faults: true, sql: (1, 4) };
    let n = t.range(1, 3);
    (0..n).map(|_| (0..[1, 2, 3][t.weighted(&[5, 2, 1])]).map(|_| gen_query(t, workers, &cfg)).collect()).collect()
}

/// The maps of tasks leave what they drop to be freed later, by the thread that dropped it.
async fn collect_garbage() {
    let one = || tokio::spawn(async { crossbeam_epoch::pin().flush() });
    let _ = futures::future::join_all([one(), one(), one()]).await;
    crossbeam_epoch::pin().flush();
}

/// What is still there.
async fn left(cluster: &Cluster, sessions: &AtomicIsize, groups: &[Vec<Q>]) -> Option<(&'static str, String)> {
    // pending maintenance of the task maps
    let running = cluster.tasks_running().await;
    let n = sessions.load(Ordering::SeqCst);
    if n != 0 {
        return Some(("task kept", format!("{n} sessions of tasks are still alive on workers, entries {running:?}")));
    }
    for q in groups.iter().flatten() {
        for t in q.tables() {
            let n = t.live.load(Ordering::SeqCst);
            if n != 0 {
                return Some(("stream kept", format!("{n} streams over {} are alive after {}", t.name, q.describe())));
            }
        }
    }
    for (i, n) in cluster.nodes.iter().enumerate() {
        if n.pool.used() != 0 {
            return Some(("worker memory kept", format!("{} bytes are reserved on worker {i}", n.pool.used())));
        }
    }
    if cluster.coord_pool.used() != 0 {
        return Some(("client memory kept", format!("{} bytes are reserved in the querying session", cluster.coord_pool.used())));
    }
    let idle_tasks = cluster.nodes.len() + cluster.addrs[0].background.load(Ordering::SeqCst);
    let n = tokio::runtime::Handle::current().metrics().num_alive_tasks();
    if n > idle_tasks {
        return Some(("background work kept", format!("{n} tasks of the runtime are alive, connections account for {idle_tasks}")));
    }
    None
}

fn history(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let workers = t.range(1, 3);
    let threads = [0, 2][t.weighted(&[2, 1])];
    let mut groups = gen_history(t, workers);
    let desc = format!("workers={workers} runtime_threads={threads}\n{}", groups.iter().map(|g| g.iter().map(|q| q.describe()).collect::<Vec<_>>().join("\n with ")).collect::<Vec<_>>().join("\n then "));
    let d = desc.clone();
    guard(threads, &d, async move {
        for q in groups.iter().flatten() {
            if let Some(why) = unsuitable(q).await {
                return Res::Discard(why);
            }
        }
        let sessions: Arc<AtomicIsize> = Default::default();
        let cluster = Cluster::start(ClusterCfg { workers, customize: Some(counted(&sessions)), ..Default::default() });
        let mut kept = vec![];
        let mut info = Info { desc: desc.clone(), ..Default::default() };
        for g in &groups {
            let ctxs: Vec<_> = g.iter().map(|q| context(&cluster, q)).collect();
            let outs = futures::future::join_all(g.iter().zip(&ctxs).map(|(q, (ctx, sql))| perform(ctx, sql, q))).await;
            for (q, (out, plan)) in g.iter().zip(outs) {
                info.class(match (&out, &q.end) {
                    (Outcome::Left, End::Waiting(_)) => "left while waiting",
                    (Outcome::Left, End::Batches(_)) => "left between batches",
                    (Outcome::Left, _) => "left before the first batch",
                    (Outcome::Failed(_), _) => "failed",
                    (Outcome::Rows(_), _) => "complete",
                });
                kept.extend(plan);
            }
        }
        info.nontrivial = cluster.shared.setplans.load(Ordering::SeqCst) > 0;
        if groups.iter().flatten().any(|q| q.opts.local.is_some()) {
            info.class("in-process worker");
        }
        if groups.iter().flatten().any(|q| q.fault == Some("stuck")) {
            info.class("stuck producer");
        }
        for q in groups.iter_mut().flatten() {
            if let Work::Chain { chain, .. } = &mut q.work {
                chain.plan = Arc::new(EmptyExec::new(chain.plan.schema()));
            }
        }
        let start = Instant::now();
        let mut rounds = 0;
        let limit = Duration::from_secs(5);
        drop(kept);
        loop {
            match left(&cluster, &sessions, &groups).await {
                None => break,
                Some((sig, m)) if start.elapsed() > limit => return fail(sig, m, &desc),
                _ => {}
            }
            rounds += 1;
            collect_garbage().await;
            if rounds > 20 {
                tokio::time::sleep(Duration::from_millis(2)).await;
            } else {
                tokio::task::yield_now().await;
            }
        }
        // and the cluster serves another query
        let data = id_table(&mut Tape::new(&[]), 0, 40, false);
        let plan = shuffle(scan(&data, 2), vec![col(&scan(&data, 2), 0)], 3, workers).unwrap();
        let plan = Arc::new(datafusion_distributed::NetworkCoalesceExec::try_new(plan, workers, 1).unwrap());
        match run_placed(&cluster, &Opts::default(), plan).await {
            Err(e) => return fail("next query failed", e.to_string(), &desc),
            Ok((a, _)) => {
                let want: Vec<String> = data.chunks.iter().flat_map(|c| crate::data::rows(c)).collect();
                if let Some(m) = crate::data::diff_multiset(&a.rows(), &want) {
                    return fail("next query wrong", m, &desc);
                }
            }
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C15",
        rule: "at least one plan was installed on a worker",
        tape_len: 900,
        quick: 7_000,
        thorough: 200_000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &[
            "what a worker's map of tasks drops is freed by the map's maintenance, which the check triggers",
            "an empty entry made by a request for a task that was already forgotten stays until the idle time of the map has passed",
        ],
        parts: vec![Part { name: "history", weight: 1, run: history }],
    }
}

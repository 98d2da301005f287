//! C22: concurrent and repeated queries on one cluster do not affect each other.
use crate::cluster::*;
use crate::hist::*;
use crate::place::*;
use crate::props::qcase::Setup;
use crate::runner::{Info, Part, Property, Res};
use crate::sql::{Gen, GenCfg};
use crate::tape::Tape;
use datafusion::prelude::SessionContext;
use datafusion_distributed::TaskKey;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// Queries of one session, each run some times.
struct Client {
    queries: Vec<(Arc<Q>, usize)>,
    /// one after the other, or all at once
    in_turn: bool,
}

fn gen_client(t: &mut Tape, workers: usize) -> Client {
    let cfg = HistCfg { max_rows: 60, faults: true, sql: (1, 2) };
    let mut q = gen_query(t, workers, &cfg);
    if t.chance(2, 3) {
        q.end = End::Full;
    }
    if matches!(q.end, End::Full | End::Batches(_)) && q.fault == Some("stuck") {
        q.end = End::Waiting(20);
    }
    let mut queries = vec![];
    if let Work::Sql(s) = &q.work
        && q.fault.is_none()
    {
        // more queries over the same tables
        for _ in 0..t.weighted(&[3, 2, 1]) {
            let query = Gen::new(t, &s.tables, GenCfg::default()).query();
            let s2 = Setup { threads: s.threads, workers: s.workers, opts: s.opts.clone(), tables: s.tables.clone(), query, check_bounds: false };
            queries.push(Q { work: Work::Sql(s2), opts: q.opts.clone(), end: End::Full, keep: t.chance(1, 3), late: t.below(4), fault: None });
        }
    }
    // plans with hand-made boundaries are used once: operators of DataFusion do not support more
    let repeatable = matches!(q.work, Work::Sql(_));
    queries.push(q);
    let queries = queries.into_iter().map(|q| (Arc::new(q), if repeatable { [1, 2, 3][t.weighted(&[3, 2, 1])] } else { 1 })).collect();
    Client { queries, in_turn: t.chance(1, 3) }
}

fn concurrent(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let workers = t.range(1, 3);
    let threads = [2, 0, 4][t.weighted(&[3, 2, 1])];
    let n = t.range(1, 4);
    let clients: Vec<Client> = (0..n).map(|_| gen_client(t, workers)).collect();
    let text = |c: &Client| format!("in turn: {}\n  {}", c.in_turn, c.queries.iter().map(|(q, n)| format!("{n} times {}", q.describe())).collect::<Vec<_>>().join("\n  "));
    let desc = format!("workers={workers} runtime_threads={threads}\n{}", clients.iter().map(text).collect::<Vec<_>>().join("\n"));
    let d = desc.clone();
    guard(threads, &d, async move {
        for (q, _) in clients.iter().flat_map(|c| &c.queries) {
            if let Some(why) = unsuitable(q).await {
                return Res::Discard(why);
            }
        }
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let mut running = vec![];
        for c in &clients {
            let (ctx, _) = context(&cluster, &c.queries[0].0);
            let mut jobs: Vec<(SessionContext, String, Arc<Q>)> = vec![];
            for (q, n) in &c.queries {
                let (_, sql) = context(&cluster, q);
                for _ in 0..*n {
                    jobs.push((ctx.clone(), sql.clone(), Arc::clone(q)));
                }
            }
            if c.in_turn {
                running.push(tokio::spawn(async move {
                    let mut v = vec![];
                    for (ctx, sql, q) in jobs {
                        let out = perform(&ctx, &sql, &q).await;
                        v.push((q, out));
                    }
                    v
                }));
            } else {
                running.extend(jobs.into_iter().map(|(ctx, sql, q)| {
                    tokio::spawn(async move {
                        let out = perform(&ctx, &sql, &q).await;
                        vec![(q, out)]
                    })
                }));
            }
        }
        let mut runs = vec![];
        for r in running {
            match r.await {
                Ok(v) => runs.extend(v),
                Err(e) => return fail("client panicked", e.to_string(), &desc),
            }
        }
        let mut info = Info { desc: desc.clone(), ..Default::default() };
        let mut complete = 0;
        for (q, (out, _plan)) in &runs {
            if let Err((sig, m)) = judge(q, out).await {
                return fail(&sig, format!("{m}\nof {}", q.describe()), &desc);
            }
            complete += matches!(out, Outcome::Rows(_)) as usize;
            info.class(out.name());
        }
        // a task is installed once, and all plans of a query come from one caller
        let mut tasks: BTreeMap<(uuid::Uuid, usize, usize), usize> = Default::default();
        let mut ids = BTreeSet::new();
        for e in cluster.shared.events() {
            if let Event::SetPlan { key: TaskKey { query_id, stage_id, task_number }, .. } = e {
                *tasks.entry((query_id, stage_id, task_number)).or_default() += 1;
                ids.insert(query_id);
            }
        }
        if let Some((k, n)) = tasks.iter().find(|x| *x.1 > 1) {
            return fail("identity reused", format!("task {k:?} was installed {n} times"), &desc);
        }
        if ids.len() > runs.len() {
            return fail("identity made up", format!("{} query ids for {} runs", ids.len(), runs.len()), &desc);
        }
        info.nontrivial = ids.len() > 1 && complete > 0;
        if clients.iter().any(|c| c.queries.iter().any(|q| q.1 > 1)) {
            info.class("repeated");
        }
        if clients.len() > 1 {
            info.class("several sessions");
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C22",
        rule: "at least two queries had tasks on workers, and at least one query of them was complete",
        tape_len: 1600,
        quick: 2_400,
        thorough: 100_000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &[
            "a repeated query is planned anew, as a DataFrame or SQL statement that is run again is",
            "the servers of the workers, which the user builds, do not close connections for many early cancelled requests (http2_max_pending_accept_reset_streams)",
        ],
        parts: vec![Part { name: "concurrent", weight: 1, run: concurrent }],
    }
}

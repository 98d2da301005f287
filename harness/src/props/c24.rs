//! C24: cluster introspection reports what is actually running.
use crate::cluster::*;
use crate::data::Fault;
use crate::oracle::*;
use crate::place::*;
use crate::probe::{ProbeLog, Reader};
use crate::props::qcase::panicked;
use crate::runner::{Info, Part, Property, Res};
use crate::tape::Tape;
use datafusion::common::DataFusionError;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use datafusion_distributed::{ChannelResolver, GetWorkerInfoRequest, grpc};
use futures::FutureExt;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use url::Url;

/// query, stage, task
type Key = (uuid::Uuid, u64, u64);
type Obs = grpc::ObservabilityServiceClient<tonic::transport::Channel>;
type Verdict = std::result::Result<(), (String, String)>;

#[derive(Debug, Clone, Copy, PartialEq)]
enum End {
    Complete,
    Dropped,
}

struct Q {
    plan: Arc<dyn ExecutionPlan>,
    text: String,
    /// the operator at the top of every hop
    logs: Vec<Arc<ProbeLog>>,
    /// the hop on top of every stage that is left when the plan is prepared
    tops: Vec<usize>,
    /// every row has reached the head when the query is at rest
    full: bool,
    end: End,
    data: Arc<crate::data::TableData>,
    faulty: bool,
}

fn gen_query(t: &mut Tape) -> Q {
    let data = id_table(t, 0, 40, false);
    let parts = t.range(1, 4);
    let rest = t.weighted(&[3, 2, 1]);
    let faulty = t.chance(1, 6);
    let mut logs: Vec<Arc<ProbeLog>> = vec![];
    let mut places: Vec<(usize, usize)> = vec![];
    let chain = gen_chain(t, scan(&data, parts), 4, &mut |_, p, _, tasks| {
        places.push((tasks, p.output_partitioning().partition_count()));
        let log = ProbeLog::plain();
        *log.tally.lock().unwrap() = Some("output_rows".into());
        let p = probe(p, &log);
        logs.push(log);
        p
    });
    let last = logs.len() - 1;
    let held = match rest {
        0 => {
            for p in 0..places[last].1 {
                logs[last].holds.lock().unwrap().insert((0, p), Reader::HoldEnd);
            }
            "at the end".to_string()
        }
        1 => {
            let i = t.below(logs.len());
            let place = (t.below(places[i].0), t.below(places[i].1));
            let k = t.below(4);
            logs[i].holds.lock().unwrap().insert(place, Reader::HoldAfter(k));
            format!("in hop {i} at {place:?} after {k} batches")
        }
        _ => "nowhere".to_string(),
    };
    if faulty {
        let c = t.below(data.chunks.len().max(1));
        data.faults.lock().unwrap().insert((c, 0), Fault::Error(Arc::new(|| DataFusionError::Execution("unreadable".into()))));
    }
    let end = [End::Complete, End::Dropped][t.weighted(&[2, 1])];
    let tops = (0..last).filter(|h| chain.tasks[*h] > 1 || chain.tasks[h + 1] > 1).collect();
    Q {
        text: format!("chunks {:?} x{parts}{} held {held}{}, {end:?}", data.chunks.iter().map(|c| c.len()).collect::<Vec<_>>(), chain.text, if faulty { ", unreadable" } else { "" }),
        plan: chain.plan,
        logs,
        tops,
        full: rest == 0 && !faulty,
        end,
        data,
        faulty,
    }
}

/// Running tasks as a worker reports them.
async fn report(o: &mut Obs) -> std::result::Result<BTreeMap<Key, u64>, (String, String)> {
    let r = o.get_task_progress(grpc::GetTaskProgressRequest {}).await.map_err(|e| ("progress request fails".to_string(), e.to_string()))?.into_inner();
    let mut m = BTreeMap::new();
    for p in r.tasks {
        let Some(k) = p.task_key else { return Err(("task without a key".into(), String::new())) };
        let Ok(id) = uuid::Uuid::from_slice(&k.query_id) else { return Err(("query id".into(), format!("{:?}", k.query_id))) };
        if p.status != grpc::TaskStatus::Running as i32 {
            return Err(("status".into(), format!("{}", p.status)));
        }
        if m.insert((id, k.stage_id, k.task_number), p.output_rows).is_some() {
            return Err(("task listed twice".into(), format!("{id} stage {} task {}", k.stage_id, k.task_number)));
        }
    }
    Ok(m)
}

/// What was sent to and installed at each worker so far.
fn installed(c: &Cluster) -> (BTreeMap<Key, Url>, BTreeSet<Key>) {
    let key = |k: &datafusion_distributed::TaskKey| (k.query_id, k.stage_id as u64, k.task_number as u64);
    let (mut sent, mut ok) = (BTreeMap::new(), BTreeSet::new());
    for e in c.shared.events() {
        match e {
            Event::SetPlan { target, key: k, .. } => drop(sent.insert(key(&k), target)),
            Event::SetPlanDone { key: k, ok: true } => drop(ok.insert(key(&k))),
            _ => {}
        }
    }
    (sent, ok)
}

struct Watch {
    c: Arc<Cluster>,
    obs: Vec<tokio::sync::Mutex<Obs>>,
    /// largest progress seen
    seen: Mutex<HashMap<(usize, Key), u64>>,
    bad: Mutex<Option<(String, String)>>,
    polls: std::sync::atomic::AtomicUsize,
}

impl Watch {
    async fn look(&self, w: usize) -> std::result::Result<BTreeMap<Key, u64>, (String, String)> {
        let m = {
            let mut o = self.obs[w].lock().await;
            let m = report(&mut o).await?;
            // compared before the next request of this worker is made
            let mut seen = self.seen.lock().unwrap();
            for (k, n) in &m {
                let s = seen.entry((w, *k)).or_default();
                if n < s {
                    return Err(("progress decreases".into(), format!("{k:?}: {n} after {s}")));
                }
                *s = *n;
            }
            m
        };
        let (sent, _) = installed(&self.c);
        if let Some(k) = m.keys().find(|k| sent.get(k) != Some(&self.c.nodes[w].url)) {
            return Err(("task that was never sent there".into(), format!("{k:?} at {}", self.c.nodes[w].url)));
        }
        self.polls.fetch_add(1, Ordering::SeqCst);
        Ok(m)
    }

    /// All workers together report exactly these tasks, soon and then still.
    async fn exactly(&self, want: &BTreeSet<Key>, when: &str) -> std::result::Result<BTreeMap<Key, u64>, (String, String)> {
        let until = Instant::now() + Duration::from_secs(8);
        let mut again = false;
        loop {
            let mut all = BTreeMap::new();
            for w in 0..self.obs.len() {
                all.extend(self.look(w).await?);
            }
            if all.keys().eq(want.iter()) {
                if again {
                    return Ok(all);
                }
                again = true;
                continue;
            }
            if again || Instant::now() > until {
                let missing: Vec<_> = want.iter().filter(|k| !all.contains_key(*k)).collect();
                let extra: Vec<_> = all.keys().filter(|k| !want.contains(*k)).collect();
                return Err((if extra.is_empty() { "running task not listed" } else { "finished task still listed" }.into(), format!("{when}: missing {missing:?}, extra {extra:?}")));
            }
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
    }

    /// Nothing happens any more.
    async fn rest(&self, qs: &[Q]) {
        let sign = || {
            let e = self.c.shared.events().len();
            let p: usize = qs.iter().flat_map(|q| &q.logs).map(|l| l.runs().iter().map(|r| 1 + r.batches.len() + r.finished as usize).sum::<usize>()).sum();
            (e, p, self.c.shared.batches.load(Ordering::SeqCst))
        };
        let mut last = sign();
        let mut same = 0;
        for _ in 0..400 {
            tokio::time::sleep(Duration::from_millis(3)).await;
            let now = sign();
            same = if now == last { same + 1 } else { 0 };
            last = now;
            let (sent, ok) = installed(&self.c);
            if same >= 4 && (sent.len() == ok.len() || same >= 30) {
                return;
            }
        }
    }
}

fn history(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let workers = t.range(1, 4);
    let threads = [2, 0, 4][t.weighted(&[3, 2, 1])];
    let mut opts = gen_opts(t, workers);
    opts.local = None;
    opts.metrics = t.bool();
    let n = [1, 2, 3][t.weighted(&[3, 3, 1])];
    let qs: Vec<Q> = (0..n).map(|_| gen_query(t)).collect();
    let mut order: Vec<usize> = (0..n).collect();
    t.shuffle(&mut order);
    let members = match t.weighted(&[3, 2, 1]) {
        0 => None,
        1 => Some(Ok((0..t.below(5)).map(|i| Url::parse(&format!("http://member-{i}:{}", 1 + t.below(60000))).unwrap()).collect())),
        _ => Some(Err("members cannot be found".to_string())),
    };
    let versions: Vec<String> = (0..t.below(workers + 1)).map(|i| ["", "1.0", "né", "2024-01-01+build.7"][t.below(4)].to_string() + &"x".repeat(i)).collect();
    let desc = format!(
        "workers={workers} runtime_threads={threads} {opts:?}\nmembers {members:?} versions {versions:?}\n{}\nended in order {order:?}",
        qs.iter().map(|q| q.text.clone()).collect::<Vec<_>>().join("\n")
    );
    let d = desc.clone();
    guard(threads, &d, async move {
        let c = Arc::new(Cluster::start(ClusterCfg { workers, observe: true, members: members.clone(), versions: versions.clone(), ..Default::default() }));
        let mut info = Info { desc: desc.clone(), ..Default::default() };
        let obs = c.nodes.iter().map(|n| tokio::sync::Mutex::new(Obs::new(raw_channel(&n.addr)))).collect();
        let w = Arc::new(Watch { c: Arc::clone(&c), obs, seen: Default::default(), bad: Default::default(), polls: Default::default() });
        match go(&c, &w, &opts, &qs, &order, &members, &versions, &mut info).await {
            Ok(()) => Res::Ok(info),
            Err((sig, m)) => fail(&sig, m, &desc),
        }
    })
}

#[allow(clippy::too_many_arguments)]
async fn go(
    c: &Arc<Cluster>,
    w: &Arc<Watch>,
    opts: &Opts,
    qs: &[Q],
    order: &[usize],
    members: &Option<std::result::Result<Vec<Url>, String>>,
    versions: &[String],
    info: &mut Info,
) -> Verdict {
    let bad = |s: &str, m: String| Err((s.to_string(), m));
    // who is there
    for (i, n) in c.nodes.iter().enumerate() {
        let mut o = w.obs[i].lock().await;
        let p = o.ping(grpc::PingRequest {}).await;
        if !p.as_ref().is_ok_and(|p| p.get_ref().value == 1) {
            return bad("ping", format!("{p:?}"));
        }
        let got = o.get_cluster_workers(grpc::GetClusterWorkersRequest {}).await;
        let want = members.clone().unwrap_or_else(|| Ok(c.urls()));
        match (&want, &got) {
            (Ok(u), Ok(g)) if g.get_ref().worker_urls == u.iter().map(|u| u.to_string()).collect::<Vec<_>>() => {}
            (Err(e), Err(g)) if g.message().contains(e.as_str()) => info.class("membership fails"),
            _ => return bad("membership", format!("{got:?}, expected {want:?}")),
        }
        drop(o);
        let v = match c.resolver.get_worker_client_for_url(&n.url).await {
            Ok(mut ch) => ch.get_worker_info(GetWorkerInfoRequest {}).await,
            Err(e) => Err(e),
        };
        let want = versions.get(i).cloned().unwrap_or_default();
        match v {
            Ok(v) if v.version == want => {}
            Ok(v) => return bad("version", format!("{} instead of {want}", v.version)),
            Err(e) => return bad("version", e.to_string()),
        }
    }
    w.exactly(&BTreeSet::new(), "before any query").await?;

    // looks at any time
    let over = Arc::new(AtomicBool::new(false));
    let poller = {
        let (w, over) = (Arc::clone(w), Arc::clone(&over));
        tokio::spawn(async move {
            while !over.load(Ordering::SeqCst) {
                for i in 0..w.obs.len() {
                    if let Err(e) = w.look(i).await {
                        w.bad.lock().unwrap().get_or_insert(e);
                        return;
                    }
                }
                tokio::time::sleep(Duration::from_micros(700)).await;
            }
        })
    };
    struct Stop(Arc<AtomicBool>);
    impl Drop for Stop {
        fn drop(&mut self) {
            self.0.store(true, Ordering::SeqCst);
        }
    }
    let _stop = Stop(over);

    let mut running: Vec<tokio::task::JoinHandle<datafusion::common::Result<Answer>>> = vec![];
    let mut keys: Vec<BTreeSet<Key>> = vec![];
    for q in qs {
        let before: BTreeSet<Key> = installed(c).0.into_keys().collect();
        let (ctx, plan) = match std::panic::AssertUnwindSafe(c.place(opts, Arc::clone(&q.plan))).catch_unwind().await.unwrap_or_else(|p| panicked(p)) {
            Ok(x) => x,
            Err(e) => return bad(&err_sig(&e), e.to_string()),
        };
        running.push(tokio::spawn(async move { run_plan(&ctx, &plan).await }));
        w.rest(qs).await;
        keys.push(installed(c).0.into_keys().filter(|k| !before.contains(k)).collect());
    }
    let listed = |running: &[Option<()>]| -> BTreeSet<Key> {
        let (_, ok) = installed(c);
        keys.iter().zip(running).filter(|x| x.1.is_some()).flat_map(|x| x.0.iter().copied()).filter(|k| ok.contains(k)).collect()
    };
    let alive = |r: &[tokio::task::JoinHandle<_>]| r.iter().map(|h| (!h.is_finished()).then_some(())).collect::<Vec<_>>();
    let mut left: Vec<Option<()>> = alive(&running);
    let now = listed(&left);
    if now.len() > 1 {
        info.nontrivial = true;
    }
    if left.iter().flatten().count() > 1 {
        info.class("queries at once");
    }
    let all = w.exactly(&now, "at rest").await?;
    for (i, q) in qs.iter().enumerate().filter(|x| left[x.0].is_some()) {
        for (k, n) in all.iter().filter(|x| keys[i].contains(x.0)) {
            let Some(top) = q.tops.get((k.1 as usize).wrapping_sub(1)) else { return bad("stage number", format!("{k:?}")) };
            let made: usize = q.logs[*top].runs().iter().filter(|r| r.task == k.2 as usize).flat_map(|r| &r.batches).map(|b| b.num_rows()).sum();
            if *n > made as u64 || (q.full && *n != made as u64) {
                return bad("progress", format!("query {i} {k:?}: {n} rows reported, {made} produced"));
            }
            if made > 0 && q.full {
                info.class("exact progress of rows");
            }
        }
    }
    // they end one by one
    for i in order {
        let q = &qs[*i];
        if left[*i].is_some() && q.end == End::Dropped {
            info.class("dropped");
            running[*i].abort();
        }
        for l in &q.logs {
            l.released.send_replace(true);
        }
        let r = tokio::time::timeout(Duration::from_secs(20), &mut running[*i]).await;
        match r {
            Err(_) => return bad("query does not end", q.text.clone()),
            Ok(Err(e)) if e.is_cancelled() => {}
            Ok(Err(e)) => return bad("panic", e.to_string()),
            Ok(Ok(Err(e))) => {
                if !q.faulty {
                    return bad(&err_sig(&e), e.to_string());
                }
                info.class("failed");
            }
            Ok(Ok(Ok(_))) => info.class("complete"),
        }
        left[*i] = None;
        // others may have come to an end meanwhile
        for (j, h) in running.iter().enumerate() {
            if h.is_finished() {
                left[j] = None;
            }
        }
        w.exactly(&listed(&left), "after a query ended").await?;
        let _ = &q.data;
    }
    w.exactly(&BTreeSet::new(), "after all").await?;
    poller.abort();
    let b = w.bad.lock().unwrap().take();
    match b {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

pub fn property() -> Property {
    Property {
        id: "C24",
        rule: "several tasks were listed while their queries were at rest",
        tape_len: 500,
        quick: 1_500,
        thorough: 30_000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["a task lasts until its query ends, also when all its rows were read"],
        parts: vec![Part { name: "history", weight: 1, run: history }],
    }
}

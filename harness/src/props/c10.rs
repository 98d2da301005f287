//! C10: every task runs at the worker it was routed to; routing decisions follow the registered chain;
//! bad routings are refused.
use crate::cluster::*;
use crate::data::*;
use crate::oracle::run_plan;
use crate::place::*;
use crate::probe::*;
use crate::props::qcase::{self, CaseCfg};
use crate::runner::{Info, Part, Property, Res};
use crate::tape::Tape;
use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
use datafusion::common::{DataFusionError, Result};
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::prelude::SessionContext;
use datafusion_distributed::{DistributedExt, RouteTasksEvent, RouteTasksEventResponse, RouteTasksHandler, display_plan_ascii};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use url::Url;
use uuid::Uuid;

#[derive(Clone, Debug)]
enum Decision {
    Pass,
    Urls(Vec<usize>),
    Count(usize),
    Fail,
    Stranger(usize),
}

/// A routing handler was asked.
#[derive(Clone, Debug)]
struct Call {
    handler: usize,
    hops: Vec<usize>,
    task_count: usize,
}

struct Router {
    idx: usize,
    by_hop: Vec<Decision>,
    logs: Vec<u64>,
    urls: Vec<Url>,
    calls: Arc<Mutex<Vec<Call>>>,
}

fn hops_of(plan: &Arc<dyn ExecutionPlan>, logs: &[u64]) -> Vec<usize> {
    let mut v = vec![];
    let _ = plan.apply(|p| {
        if let Some(p) = p.downcast_ref::<Probe>()
            && let Some(h) = logs.iter().position(|l| *l == p.log.id)
        {
            v.push(h);
        }
        Ok(TreeNodeRecursion::Continue)
    });
    v
}

fn stranger() -> Url {
    Url::parse("http://nowhere:1").unwrap()
}

impl RouteTasksHandler for Router {
    fn handle(&self, ev: RouteTasksEvent) -> Option<Result<RouteTasksEventResponse>> {
        let hops = hops_of(ev.plan, &self.logs);
        let h = hops.first().copied();
        self.calls.lock().unwrap().push(Call { handler: self.idx, hops, task_count: ev.task_count });
        let url = |i: usize| self.urls[i % self.urls.len()].clone();
        let urls = match &self.by_hop[h?] {
            Decision::Pass => return None,
            Decision::Fail => return Some(Err(DataFusionError::Execution(format!("routing refused by {}", self.idx)))),
            Decision::Urls(u) => u.iter().map(|i| url(*i)).collect(),
            Decision::Count(n) => (0..*n).map(url).collect(),
            Decision::Stranger(at) => (0..ev.task_count).map(|i| if i == at % ev.task_count { stranger() } else { url(i) }).collect(),
        };
        Some(Ok(RouteTasksEventResponse::new(urls)))
    }
}

fn chains(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[4, 1])];
    let workers = t.range(1, 5);
    let opts = gen_opts(t, workers);
    let data = id_table(t, 0, 12, false);
    let parts = t.range(1, 3);
    let mut logs: Vec<Arc<ProbeLog>> = vec![];
    let chain = gen_chain(t, scan(&data, parts), 4, &mut |_, p, _, _| {
        let l = ProbeLog::plain();
        logs.push(Arc::clone(&l));
        probe(p, &l)
    });
    let ids: Vec<u64> = logs.iter().map(|l| l.id).collect();
    let hops = chain.tasks.len() - 1;
    let handlers = t.range(1, 4) - 1;
    let bad = t.chance(1, 4);
    let mut deciders: Vec<Vec<Decision>> = vec![];
    for _ in 0..handlers {
        let mut v = vec![];
        for h in 0..hops + 1 {
            let n = chain.tasks[h];
            v.push(match t.weighted(&[4, 5, if bad { 1 } else { 0 }, if bad { 1 } else { 0 }, if bad { 1 } else { 0 }]) {
                0 => Decision::Pass,
                1 => {
                    let first = t.below(workers);
                    match t.weighted(&[2, 1, 2]) {
                        0 => Decision::Urls((0..n).map(|_| t.below(workers)).collect()),
                        1 => Decision::Urls(vec![first; n]),
                        _ => Decision::Urls((0..n).map(|i| first + n - i).collect()),
                    }
                }
                2 => Decision::Count([n + 1, n - 1, 0, 2 * n][t.below(4)]),
                3 => Decision::Fail,
                _ => Decision::Stranger(t.below(n)),
            });
        }
        deciders.push(v);
    }
    // the resolver knows some of the workers, in any order
    let mut known: Vec<usize> = (0..workers).collect();
    t.shuffle(&mut known);
    let keep = workers - t.below(workers);
    known.truncate(keep);
    let desc = format!("workers={workers} threads={threads} resolver={known:?} handlers={deciders:?} {} {opts:?}", chain.text);
    let d = desc.clone();
    let plan = Arc::clone(&chain.plan);
    guard(threads, &desc, async move {
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        cluster.shared.keep_plans.store(true, std::sync::atomic::Ordering::SeqCst);
        let urls = cluster.urls();
        let calls: Arc<Mutex<Vec<Call>>> = Default::default();
        let mut b: SessionStateBuilder = cluster.session_builder_with(&opts, Some(plan));
        b = b.with_distributed_worker_resolver(Urls(known.iter().map(|i| urls[*i].clone()).collect()));
        for (i, v) in deciders.iter().enumerate() {
            b = b.with_distributed_route_tasks_handler(Router { idx: i, by_hop: v.clone(), logs: ids.clone(), urls: urls.clone(), calls: Arc::clone(&calls) });
        }
        let ctx = SessionContext::new_with_state(b.build());
        let plan = match async { ctx.sql("SELECT 1").await?.create_physical_plan().await }.await {
            Ok(p) => p,
            Err(e) => return fail(&err_sig(&e), format!("not planned: {e}"), &d),
        };
        let d = format!("{d}\n{}", display_plan_ascii(plan.as_ref(), false));
        let out = run_plan(&ctx, &plan).await;

        // What each stage was told, by its topmost hop.
        let index = |u: &Url| urls.iter().position(|x| x == u);
        let mut stages: BTreeMap<usize, Vec<Call>> = BTreeMap::new();
        for c in calls.lock().unwrap().iter() {
            let Some(h) = c.hops.first() else {
                return fail("routed without its plan", format!("{c:?}"), &d);
            };
            stages.entry(*h).or_default().push(c.clone());
        }
        let mut failing: Option<(usize, String)> = None;
        let mut strange = false;
        let mut decided: BTreeMap<usize, Option<Vec<usize>>> = BTreeMap::new();
        for (h, cs) in &stages {
            let n = chain.tasks[*h];
            let asked: Vec<usize> = cs.iter().map(|c| c.handler).collect();
            let last = deciders.iter().position(|v| !matches!(v[*h], Decision::Pass));
            let want: Vec<usize> = (0..last.map_or(handlers, |l| l + 1)).collect();
            if asked != want {
                return fail("order of handlers", format!("stage of hop {h} asked handlers {asked:?}, expected {want:?}"), &d);
            }
            if cs.iter().any(|c| c.task_count != n) {
                return fail("announced tasks", format!("hop {h} has {n} tasks: {cs:?}"), &d);
            }
            let u = match last.map(|l| deciders[l][*h].clone()) {
                None => None,
                Some(Decision::Urls(u)) => Some(u.iter().map(|i| i % workers).collect::<Vec<_>>()),
                Some(Decision::Count(c)) if c == n => Some((0..n).map(|i| i % workers).collect()),
                Some(Decision::Stranger(at)) => {
                    strange = true;
                    Some((0..n).map(|i| if i == at % n { usize::MAX } else { i % workers }).collect())
                }
                Some(Decision::Fail) => {
                    failing = failing.or(Some((*h, format!("routing refused by {}", last.unwrap()))));
                    None
                }
                _ => {
                    failing = failing.or(Some((*h, "number of tasks".to_string())));
                    None
                }
            };
            decided.insert(*h, u);
        }
        // Where each task of each stage went.
        let mut placed: BTreeMap<usize, BTreeMap<usize, BTreeSet<usize>>> = BTreeMap::new();
        let mut stage_hop: BTreeMap<(Uuid, usize), usize> = BTreeMap::new();
        let mut sent: BTreeMap<(Uuid, usize, usize), Url> = BTreeMap::new();
        for e in cluster.shared.events() {
            let Event::SetPlan { target, key, task_count, declared_url, plan, .. } = e else { continue };
            let id = (key.query_id, key.stage_id);
            let Some(h) = plan.and_then(|p| hops_of(&p, &ids).first().copied()) else {
                return fail("stage without a plan", format!("{key:?}"), &d);
            };
            if *stage_hop.entry(id).or_insert(h) != h {
                return fail("one stage number for two stages", format!("{key:?}"), &d);
            }
            if task_count != chain.tasks[h] || key.task_number >= task_count {
                return fail("task count", format!("{key:?} is one of {task_count}, hop {h} has {} tasks", chain.tasks[h]), &d);
            }
            if declared_url != target {
                return fail("wrong worker", format!("{key:?} was sent to {target} as a task of {declared_url}"), &d);
            }
            if sent.insert((key.query_id, key.stage_id, key.task_number), target.clone()).is_some() {
                return fail("task sent twice", format!("{key:?}"), &d);
            }
            placed.entry(h).or_default().entry(key.task_number).or_default().insert(index(&target).unwrap());
        }
        for e in cluster.shared.events() {
            if let Event::Exec { target, key, .. } = e
                && let Some(u) = sent.get(&(key.query_id, key.stage_id, key.task_number))
                && *u != target
            {
                return fail("wrong worker", format!("{key:?} was sent to {u} and fetched from {target}"), &d);
            }
        }
        let home: BTreeMap<usize, usize> = stages.iter().flat_map(|(h, cs)| cs[0].hops.iter().map(|x| (*x, *h)).collect::<Vec<_>>()).collect();
        let custom = handlers > 0;
        for (x, l) in logs.iter().enumerate() {
            for r in l.runs() {
                match home.get(&x) {
                    Some(h) => {
                        if r.node == COORD {
                            return fail("wrong worker", format!("hop {x} task {} ran on the coordinator", r.task), &d);
                        }
                        placed.entry(*h).or_default().entry(r.task).or_default().insert(r.node as usize);
                    }
                    // (without handlers nobody told which stages exist)
                    None if custom && r.node != COORD => return fail("wrong worker", format!("hop {x} ran on worker {} unrouted", r.node), &d),
                    None if !custom && r.node != COORD => {
                        placed.entry(x).or_default().entry(r.task).or_default().insert(r.node as usize);
                    }
                    None => {}
                }
            }
        }
        let stopped = failing.as_ref().map_or(usize::MAX, |f| f.0);
        for (h, tasks) in &placed {
            if *h >= stopped {
                return fail("ran after a bad routing", format!("hop {h} was sent to workers, the routing of hop {stopped} failed"), &d);
            }
            let mut ws = vec![];
            for (task, at) in tasks {
                if at.len() != 1 {
                    return fail("wrong worker", format!("hop {h} task {task} ran at workers {at:?}"), &d);
                }
                let at = *at.first().unwrap();
                ws.push(at);
                if let Some(Some(u)) = decided.get(h)
                    && u[*task] != at
                {
                    return fail("wrong worker", format!("hop {h} task {task} was routed to worker {} and went to {at}", u[*task]), &d);
                }
                if !matches!(decided.get(h), Some(Some(_))) && !known.contains(&at) && opts.local.is_none() {
                    let inherited = chain.tasks[*h] == 1 && placed.range(..h).next_back().is_some_and(|(_, c)| c.values().any(|s| s.contains(&at)));
                    if !inherited {
                        return fail("unknown worker", format!("hop {h} task {task} went to worker {at}, the resolver knows {known:?}"), &d);
                    }
                }
            }
            if !matches!(decided.get(h), Some(Some(_))) {
                let n = chain.tasks[*h];
                let distinct: BTreeSet<usize> = ws.iter().copied().collect();
                if n > 1 && n <= known.len() && distinct.len() != ws.len() {
                    return fail("crowded worker", format!("the {n} tasks of hop {h} were placed at workers {ws:?} of {known:?}"), &d);
                }
                if n > 1 && n > known.len() && distinct.len() != known.len() && ws.len() == n {
                    return fail("idle worker", format!("the {n} tasks of hop {h} were placed at workers {ws:?} of {known:?}"), &d);
                }
                if n == 1
                    && let Some(l) = opts.local
                    && ws != vec![l]
                {
                    return fail("not co-located", format!("the only task of hop {h} was placed at {ws:?}, the coordinator is worker {l}"), &d);
                }
            }
        }
        let mut info = Info { desc: d.clone(), ..Default::default() };
        if failing.is_none() && strange {
            failing = Some((0, "nowhere".into()));
        }
        match (&out, &failing) {
            (Ok(_), Some((h, why))) => return fail("bad routing accepted", format!("hop {h}: {why}"), &d),
            (Err(e), Some((_, why))) => {
                if !e.to_string().contains(why.as_str()) {
                    return fail("error of a bad routing", format!("{e} instead of something about {why}"), &d);
                }
                info.class("bad routing");
            }
            (Err(e), None) => return fail(&err_sig(e), format!("failed: {e}"), &d),
            (Ok(a), None) => {
                let mut want = vec![];
                let once = rows(&data.chunks.iter().flatten().cloned().collect::<Vec<_>>());
                for _ in 0..chain.times {
                    want.extend(once.iter().cloned());
                }
                if let Some(m) = diff_multiset(&a.rows(), &want) {
                    return fail("rows", m, &d);
                }
                // every task of every routed stage was there
                for (h, _) in &stages {
                    let got: Vec<usize> = placed.get(h).map(|m| m.keys().copied().collect()).unwrap_or_default();
                    if got != (0..chain.tasks[*h]).collect::<Vec<_>>() {
                        return fail("missing tasks", format!("hop {h} has {} tasks, of which {got:?} ran", chain.tasks[*h]), &d);
                    }
                }
            }
        }
        info.nontrivial = failing.is_some() || placed.values().any(|m| m.len() > 1);
        if decided.values().any(|u| u.is_some()) {
            info.class("routed by a handler");
        }
        if decided.values().any(|u| u.is_none()) || !custom {
            info.class("routed by default");
        }
        if decided.values().flatten().any(|u| u.iter().collect::<BTreeSet<_>>().len() < u.len()) {
            info.class("several tasks of a stage at one worker");
        }
        if stages.len() > 1 {
            info.class("2+ stages");
        }
        if opts.local.is_some() {
            info.class("in-process worker");
        }
        Res::Ok(info)
    })
}

/// Answers every request with urls drawn from a seed, and notes them down.
struct Spread {
    seed: u32,
    urls: Vec<Url>,
    given: Arc<Mutex<Vec<Vec<Url>>>>,
}

impl RouteTasksHandler for Spread {
    fn handle(&self, ev: RouteTasksEvent) -> Option<Result<RouteTasksEventResponse>> {
        let mut g = self.given.lock().unwrap();
        let mut x = self.seed.wrapping_mul(2654435761).wrapping_add(g.len() as u32 * 40503);
        let v: Vec<Url> = (0..ev.task_count)
            .map(|_| {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                self.urls[(x >> 16) as usize % self.urls.len()].clone()
            })
            .collect();
        g.push(v.clone());
        Some(Ok(RouteTasksEventResponse::new(v)))
    }
}

/// SQL queries, planned statically and adaptively, with every stage routed at will.
fn queries(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let seed = t.raw();
    let c = CaseCfg { adaptive_sometimes: true, ..Default::default() };
    let s = qcase::decode(t, &c);
    let desc = format!("{} routing seed={seed}", s.describe());
    let d = desc.clone();
    guard(s.threads, &desc, async move {
        let cluster = Cluster::start(ClusterCfg { workers: s.workers, ..Default::default() });
        let given: Arc<Mutex<Vec<Vec<Url>>>> = Default::default();
        let b = cluster.session_builder(&s.opts).with_distributed_route_tasks_handler(Spread { seed, urls: cluster.urls(), given: Arc::clone(&given) });
        let ctx = SessionContext::new_with_state(b.build());
        for t in &s.tables {
            ctx.register_table(t.name.as_str(), t.provider()).unwrap();
        }
        let sql = s.query.sql();
        let out = std::panic::AssertUnwindSafe(crate::oracle::run(&ctx, &sql));
        let out = futures::FutureExt::catch_unwind(out).await.unwrap_or_else(|p| qcase::panicked(p));
        let given = given.lock().unwrap().clone();
        let mut left = given.clone();
        let mut stages: BTreeMap<(Uuid, usize), BTreeMap<usize, Url>> = BTreeMap::new();
        let mut counts = BTreeMap::new();
        for e in cluster.shared.events() {
            if let Event::SetPlan { target, key, task_count, declared_url, .. } = e {
                if target != declared_url {
                    return fail("wrong worker", format!("{key:?} was sent to {target} as a task of {declared_url}"), &d);
                }
                counts.insert((key.query_id, key.stage_id), task_count);
                if stages.entry((key.query_id, key.stage_id)).or_default().insert(key.task_number, target).is_some() {
                    return fail("task sent twice", format!("{key:?}"), &d);
                }
            }
        }
        for (id, tasks) in &stages {
            // (tasks handled in-process leave no trace here)
            let Some(i) = left.iter().position(|v| v.len() == counts[id] && tasks.iter().all(|(t, u)| v.get(*t) == Some(u))) else {
                return fail("wrong worker", format!("the tasks of stage {} went to {tasks:?}; routings were {given:?}", id.1), &d);
            };
            // a routing is used up by the stage that has all of it
            if tasks.len() == counts[id] {
                left.remove(i);
            }
        }
        for e in cluster.shared.events() {
            if let Event::Exec { target, key, .. } = e
                && let Some(u) = stages.get(&(key.query_id, key.stage_id)).and_then(|m| m.get(&key.task_number))
                && *u != target
            {
                return fail("wrong worker", format!("{key:?} was sent to {u} and fetched from {target}"), &d);
            }
        }
        let mut info = Info { desc: d, ..Default::default() };
        info.nontrivial = stages.values().any(|m| m.len() > 1) && s.workers > 1;
        if s.opts.dynamic.is_some() {
            info.class("adaptive");
        }
        if stages.len() > 2 {
            info.class("3+ stages");
        }
        if out.is_err() {
            info.class("query failed");
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C10",
        rule: "a stage with several tasks was placed (on several workers, for queries), or a bad routing was refused",
        tape_len: 400,
        quick: 16000,
        thorough: 300000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["tasks placed at the worker of the coordinator's own process are seen through probes only", "answers of the queries are the subject of C01 and C02"],
        parts: vec![Part { name: "chains", weight: 3, run: chains }, Part { name: "queries", weight: 1, run: queries }],
    }
}

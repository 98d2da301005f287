//! C14: work unit feeds are delivered once, in order, to the task that owns them.
use crate::cluster::*;
use crate::feed::*;
use crate::oracle::*;
use crate::place::*;
use crate::props::qcase::*;
use crate::runner::{Info, Part, Property, Res};
use crate::sql::{Table, TableCfg};
use crate::tape::Tape;
use datafusion::catalog::TableProvider;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::union::UnionExec;
use datafusion::prelude::SessionContext;
use futures::FutureExt;
use std::sync::Arc;
use std::sync::atomic::Ordering;

fn gen_script(t: &mut Tape, fail: bool) -> Script {
    let f = match t.weighted(&[4, 1, 1]) {
        0 => Fail::Stream(t.size(8)),
        1 => Fail::Panic(t.size(4)),
        _ => Fail::Open,
    };
    let at = t.below(24);
    Script {
        seed: t.raw(),
        empties: [0, 2, 30, 700][t.weighted(&[4, 4, 2, 1])],
        pad: [0, 5, 300, 5000][t.weighted(&[4, 2, 2, 1])],
        pause_every: [0, 1, 3, 20][t.weighted(&[3, 1, 2, 1])],
        sleep: t.chance(1, 4),
        gates: vec![],
        stops: vec![],
        fail: if fail { Some((at, f)) } else { None },
    }
}

/// Workers know the leaf as well.
fn cluster(workers: usize) -> Cluster {
    use datafusion_distributed::DistributedExt;
    Cluster::start(ClusterCfg { workers, customize: Some(Arc::new(|_, _, b| Ok(b.with_distributed_user_codec(FeedCodec)))), ..Default::default() })
}

fn classes(info: &mut Info, feeds: &[Arc<FeedData>]) {
    let mut tasks = 0;
    let mut units = 0;
    let mut remote = false;
    for f in feeds {
        for (r, g) in f.got.lock().unwrap().iter() {
            tasks = tasks.max(r.tasks);
            units = units.max(g.units.len());
            remote |= r.node != COORD;
        }
        if f.script.fail.is_some() {
            info.class(if f.failed.load(Ordering::SeqCst) > 0 { "provider failed" } else { "failure not reached" });
        }
    }
    info.nontrivial = remote && units > 0;
    if tasks > 1 {
        info.class("fanned out to several tasks");
    }
    if units > 256 {
        info.class("more than one chunk of units");
    }
}

fn sql(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let cfg = CaseCfg { table_cfg: TableCfg { max_rows: 40, ..Default::default() }, adaptive_sometimes: true, ..Default::default() };
    let s = decode(t, &cfg);
    let failing = t.chance(1, 4);
    let swap = t.bool();
    let mut feeds = vec![];
    let fail_at = t.below(s.tables.len());
    let providers: Vec<(Table, Option<Arc<FeedData>>)> = s
        .tables
        .iter()
        .enumerate()
        .map(|(i, tb)| {
            let script = gen_script(t, failing && i == fail_at);
            let kind = t.below(2);
            let f = if i == fail_at || !t.chance(1, 4) { Some(FeedData::new(Arc::clone(&tb.data), kind, script)) } else { None };
            feeds.extend(f.clone());
            (tb.clone(), f)
        })
        .collect();
    let desc = format!("{}\n{}", s.describe(), providers.iter().map(|(t, f)| format!("{} {:?}", t.name, f.as_ref().map(|f| (f.kind, &f.script)))).collect::<Vec<_>>().join("\n"));
    let d = desc.clone();
    guard(s.threads, &d, async move {
        let exp = std::panic::AssertUnwindSafe(expected(&s.tables, &s.query)).catch_unwind().await.unwrap_or_else(|p| panicked(p));
        let exp = match exp {
            Ok(e) => e,
            Err(e) => return Res::Discard(format!("reference: {}", sig_of_error(&e.to_string()))),
        };
        if exp.work / s.opts.batch_size.min(if s.opts.shuffle_batch > 0 { s.opts.shuffle_batch } else { 20 }).clamp(1, 20) > 3000 {
            return Res::Discard("too much work".into());
        }
        let c = cluster(s.workers);
        let ctx = SessionContext::new_with_state(with_feeds(c.session_builder(&s.opts), swap).build());
        for (tb, f) in &providers {
            let p: Arc<dyn TableProvider> = match f {
                Some(of) => Arc::new(FeedTable { of: Arc::clone(of), partitions: tb.partitions }),
                None => tb.provider(),
            };
            ctx.register_table(tb.name.as_str(), p).unwrap();
        }
        let text = s.query.sql();
        let out = std::panic::AssertUnwindSafe(run(&ctx, &text)).catch_unwind().await.unwrap_or_else(|p| panicked(p));
        let refused = feeds.iter().any(|f| f.refused());
        for f in &feeds {
            if let Err((sig, m)) = f.check(refused) {
                return fail(&sig, m, &desc);
            }
        }
        let failed: usize = feeds.iter().map(|f| f.failed.load(Ordering::SeqCst)).sum();
        let bad = match &out {
            Err(e) if failed > 0 && e.to_string().contains(FEED_FAILS) => None,
            Err(e) => Some((err_sig(e), format!("query failed: {e}"), None)),
            Ok((a, p)) => compare(&s.query, &exp, a).err().map(|(k, m)| (format!("mismatch:{k}"), m, Some(p))),
        };
        if let Some((sig, m, plan)) = bad {
            if let Some(why) = upstream_excuse(&s, &exp, &sig, &m, plan).await {
                return Res::Discard(why);
            }
            let desc = match plan {
                Some(p) => format!("{desc}\n{}", datafusion_distributed::display_plan_ascii(p.as_ref(), false)),
                None => desc,
            };
            return fail(&sig, m, &desc);
        }
        let mut info = Info { desc: desc.clone(), ..Default::default() };
        classes(&mut info, &feeds);
        if s.opts.dynamic.is_some() {
            info.class("adaptive");
        }
        Res::Ok(info)
    })
}

fn placed(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let workers = t.range(1, 4);
    let threads = [2, 0, 4][t.weighted(&[3, 2, 1])];
    let opts = gen_opts(t, workers);
    let failing = t.chance(1, 5);
    let swap = t.bool();
    let lossy = t.chance(1, 4);
    let n = [1, 2, 3][t.weighted(&[4, 2, 1])];
    let mut tables = vec![];
    for i in 0..n {
        let data = id_table(t, i, 40, false);
        let parts = t.range(1, 4);
        let script = gen_script(t, failing && i == 0);
        tables.push((data, parts, t.below(2), script));
    }
    let gated = !failing && !lossy && t.chance(1, 2);
    if gated {
        for x in &mut tables {
            x.3.gates = (0..12).map(|_| (t.raw(), t.size(6), t.size(40), t.bool())).collect();
        }
    }
    let stopping = !gated && t.chance(1, 3);
    if stopping {
        for x in &mut tables {
            x.3.stops = (0..t.range(1, 5)).map(|_| if t.bool() { Some(t.size(20)) } else { None }).collect();
        }
    }
    // the tables have k2 of different types
    let cols = if n > 1 { Some(vec![0, 1, 0, 3]) } else { None };
    let mut logs = vec![];
    let union = |v: Vec<Arc<dyn ExecutionPlan>>| if v.len() == 1 { Ok(Arc::clone(&v[0])) } else { UnionExec::try_new(v) };
    let feeds: Vec<Arc<FeedData>> = tables.iter().map(|x| FeedData::new(Arc::clone(&x.0), x.2, x.3.clone())).collect();
    let leaves = feeds.iter().zip(&tables).map(|(f, x)| Arc::new(FeedScan::new(f, x.1, cols.clone())) as Arc<dyn ExecutionPlan>).collect();
    let chain = gen_chain(t, union(leaves).unwrap(), 3, &mut |t, p, stage, tasks| {
        if !lossy || stage == 0 {
            return p;
        }
        use datafusion::physical_plan::ExecutionPlanProperties;
        let parts = p.output_partitioning().partition_count();
        let log = gen_log(t, tasks, parts, true, false);
        logs.push(Arc::clone(&log));
        probe(p, &log)
    });
    let desc = format!(
        "workers={workers} runtime_threads={threads} {opts:?}\n{}\n{}",
        feeds.iter().zip(&tables).map(|(f, x)| format!("{} chunks {:?} x{} kind {} {:?}", x.0.name, x.0.chunks.iter().map(|c| c.len()).collect::<Vec<_>>(), x.1, f.kind, f.script)).collect::<Vec<_>>().join("\n"),
        chain.text
    );
    let d = desc.clone();
    guard(threads, &d, async move {
        let c = cluster(workers);
        let out = std::panic::AssertUnwindSafe(async {
            let ctx = SessionContext::new_with_state(with_feeds(c.session_builder_with(&opts, Some(Arc::clone(&chain.plan))), swap).build());
            run(&ctx, "SELECT 1").await
        })
        .catch_unwind()
        .await
        .unwrap_or_else(|p| panicked(p));
        let refused = feeds.iter().any(|f| f.refused());
        for f in &feeds {
            if let Err((sig, m)) = f.check(refused) {
                return fail(&sig, m, &desc);
            }
        }
        let failed: usize = feeds.iter().map(|f| f.failed.load(Ordering::SeqCst)).sum();
        let mut want = vec![];
        for f in &feeds {
            // as far as the readers go
            let all = f.opened.lock().unwrap().first().map_or(1, |o| o.parts * o.tasks);
            let r = crate::data::rows(&f.taken(all).iter().map(|b| b.project(cols.as_deref().unwrap_or(&[0, 1, 2, 3])).unwrap()).collect::<Vec<_>>());
            (0..chain.times).for_each(|_| want.extend(r.clone()));
        }
        match out {
            Err(e) if failed > 0 && e.to_string().contains(FEED_FAILS) => {}
            Err(e) => return fail(&err_sig(&e), format!("query failed: {e}"), &desc),
            Ok((a, _)) if lossy => {
                if let Some(m) = crate::data::submultiset(&a.rows(), &want) {
                    return fail("rows", m, &desc);
                }
            }
            Ok((a, _)) => {
                if failed > 0 && !stopping {
                    return fail("complete in spite of a failure", "", &desc);
                }
                if let Some(m) = crate::data::diff_multiset(&a.rows(), &want) {
                    return fail("rows", m, &desc);
                }
                for f in &feeds {
                    if let Err((sig, m)) = f.complete() {
                        return fail(&sig, m, &desc);
                    }
                }
            }
        }
        let mut info = Info { desc: desc.clone(), ..Default::default() };
        classes(&mut info, &feeds);
        if feeds.iter().any(|f| !f.script.gates.is_empty()) {
            info.class("partitions waiting for others");
        }
        if stopping {
            info.class("readers that let go of their feed");
        }
        if lossy {
            info.class("readers that stop");
        }
        Res::Ok(info)
    })
}

/// Connections of the coordinator, or of everyone, to a worker break while units are on their way.
fn cut(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let workers = t.range(2, 4);
    let threads = [2, 0, 4][t.weighted(&[3, 2, 1])];
    let opts = gen_opts(t, workers);
    let data = id_table(t, 0, 40, false);
    let parts = t.range(1, 4);
    let script = gen_script(t, false);
    let how = t.weighted(&[3, 1, 1]);
    let victim = t.below(workers);
    let hook = (t.below(12), t.size(30));
    let of = FeedData::new(Arc::clone(&data), t.below(2), script);
    let chain = gen_chain(t, Arc::new(FeedScan::new(&of, parts, None)), 3, &mut |_, p, _, _| p);
    let desc = format!(
        "workers={workers} runtime_threads={threads} {opts:?}\n{} chunks {:?} x{parts} kind {} {:?}\n{}\n{} of worker {victim} before unit {} of partition {}",
        data.name,
        data.chunks.iter().map(|c| c.len()).collect::<Vec<_>>(),
        of.kind,
        of.script,
        chain.text,
        ["the coordinator's connection", "all connections break", "loss"][how],
        hook.1,
        hook.0,
    );
    let d = desc.clone();
    guard(threads, &d, async move {
        use datafusion_distributed::DistributedExt;
        let c = Cluster::start(ClusterCfg { workers, cuttable: true, customize: Some(Arc::new(|_, _, b| Ok(b.with_distributed_user_codec(FeedCodec)))), ..Default::default() });
        let link = c.nodes[victim].addr.cut.clone().unwrap();
        let call = Box::new(move || match how {
            0 => link.reset_from(COORD),
            1 => link.reset(),
            _ => link.cut(),
        });
        *of.hook.lock().unwrap() = Some(Hook { part: hook.0, at: hook.1, call });
        let out = std::panic::AssertUnwindSafe(async {
            let ctx = SessionContext::new_with_state(with_feeds(c.session_builder_with(&opts, Some(Arc::clone(&chain.plan))), false).build());
            run(&ctx, "SELECT 1").await
        })
        .catch_unwind()
        .await
        .unwrap_or_else(|p| panicked(p));
        if let Err((sig, m)) = of.check(of.refused()) {
            return fail(&sig, m, &desc);
        }
        let cuts = of.failed.load(Ordering::SeqCst);
        let mut info = Info { desc: desc.clone(), ..Default::default() };
        classes(&mut info, std::slice::from_ref(&of));
        match out {
            Err(_) if cuts > 0 => info.class("failed by the cut"),
            Err(e) => return fail(&err_sig(&e), format!("query failed: {e}"), &desc),
            Ok((a, _)) => {
                let all: Vec<_> = data.chunks.iter().flat_map(|c| crate::data::rows(c)).collect();
                let mut want = vec![];
                (0..chain.times).for_each(|_| want.extend(all.clone()));
                if let Some(m) = crate::data::diff_multiset(&a.rows(), &want) {
                    return fail("short result after a cut", m, &desc);
                }
                info.class(if cuts > 0 { "complete in spite of the cut" } else { "cut not reached" });
            }
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C14",
        rule: "at least one unit was received by a task on a worker",
        tape_len: 900,
        quick: 5_000,
        thorough: 150_000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["single-node DataFusion with one partition is the reference of the SQL part", "the end of one feed may reach its reader only when the other feeds of the task have ended"],
        parts: vec![Part { name: "sql", weight: 1, run: sql }, Part { name: "placed", weight: 2, run: placed }, Part { name: "cut", weight: 1, run: cut }],
    }
}

//! C18: transfers multiplexed over one connection stay within the buffer budget, and neither stall
//! nor starve, whatever the budget and however the partitions are read.
use crate::cluster::*;
use crate::data::*;
use crate::oracle::run_plan;
use crate::place::*;
use crate::probe::*;
use crate::runner::{Info, Part, Property, Res};
use crate::tape::Tape;
use datafusion::arrow::array::{Int64Array, StringArray};
use datafusion::arrow::datatypes::{DataType, Field, Schema};
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::ExecutionPlan;
use datafusion_distributed::{BroadcastExec, NetworkBroadcastExec, NetworkCoalesceExec, display_plan_ascii};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub struct Wide {
    pub data: Arc<TableData>,
    pub batches: usize,
    pub rows: usize,
    pub pad: usize,
}

/// Many batches per chunk, of fixed width. `id` tells the chunk, and ascends within it.
pub fn wide(chunks: usize, batches: &dyn Fn(usize) -> usize, rows: usize, pad: usize, ctx_mode: bool, yield_every: usize) -> Wide {
    let schema = Arc::new(Schema::new(vec![
        Field::new("id", DataType::Int64, false),
        Field::new("k", DataType::Int64, false),
        Field::new("pad", DataType::Utf8, false),
    ]));
    let mut out = vec![];
    let mut max = 0;
    for c in 0..chunks {
        let mut v = vec![];
        max = max.max(batches(c));
        for b in 0..batches(c) {
            let first = c as i64 * 1_000_000 + (b * rows) as i64;
            let id: Int64Array = (first..first + rows as i64).collect();
            let k: Int64Array = id.values().iter().map(|i| i % 97).collect();
            let p: StringArray = id.values().iter().map(|i| Some(format!("{i:x}").repeat(pad).chars().take(pad).collect::<String>())).collect();
            v.push(RecordBatch::try_new(Arc::clone(&schema), vec![Arc::new(id), Arc::new(k), Arc::new(p)]).unwrap());
        }
        out.push(v);
    }
    let mut d = TableData::new("t", schema, out);
    d.ctx_mode = ctx_mode;
    d.yield_every = yield_every;
    Wide { data: d.build(), batches: max, rows, pad }
}

/// What a boundary under test looks like.
#[derive(Clone)]
pub struct Shape {
    pub kind: usize,
    pub producers: usize,
    pub consumers: usize,
    pub scan_parts: usize,
    pub shuffle_parts: usize,
}

pub fn build(s: &Shape, data: &Arc<TableData>, log: &Arc<ProbeLog>) -> Arc<dyn ExecutionPlan> {
    let mut plan = scan(data, s.scan_parts);
    plan = match s.kind {
        0 => Arc::new(NetworkCoalesceExec::try_new(plan, s.producers, s.consumers).unwrap()),
        1 => {
            let k = vec![col(&plan, 1)];
            shuffle(plan, k, s.shuffle_parts, s.producers).unwrap()
        }
        _ => Arc::new(NetworkBroadcastExec::try_new(Arc::new(BroadcastExec::new(plan, s.consumers)), s.producers).unwrap()),
    };
    plan = probe(plan, log);
    if s.consumers > 1 {
        plan = Arc::new(NetworkCoalesceExec::try_new(plan, s.consumers, 1).unwrap());
    }
    Arc::new(CoalescePartitionsExec::new(plan))
}

pub fn parts_of(s: &Shape) -> usize {
    match s.kind {
        0 => s.scan_parts * s.producers.div_ceil(s.consumers),
        1 => s.shuffle_parts,
        _ => s.scan_parts,
    }
}

pub fn kind_name(k: usize) -> &'static str {
    ["coalesce", "shuffle", "broadcast"][k]
}

pub fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

/// Rows of one chunk must arrive in the order they were read.
fn in_order(batches: &[RecordBatch]) -> Result<(), String> {
    let mut last: BTreeMap<i64, i64> = BTreeMap::new();
    for b in batches {
        let id = b.column(0).as_any().downcast_ref::<Int64Array>().unwrap();
        for v in id.values() {
            let l = last.entry(v / 1_000_000).or_insert(-1);
            if *v <= *l {
                return Err(format!("row {v} after row {l}"));
            }
            *l = *v;
        }
    }
    Ok(())
}

fn deliver(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[1, 1])];
    let workers = t.range(1, 3);
    let mut opts = gen_opts(t, workers);
    opts.budget = [1, 100, 2000, 20_000, 64 << 20][t.weighted(&[4, 3, 3, 2, 1])];
    let s = Shape {
        kind: t.weighted(&[2, 3, 2]),
        producers: [2, 1, 3][t.weighted(&[3, 3, 1])],
        consumers: [1, 2, 3][t.weighted(&[4, 2, 1])],
        scan_parts: t.range(1, 4),
        shuffle_parts: t.range(1, 6),
    };
    let chunks = t.range(1, 6);
    let counts: Vec<usize> = (0..chunks).map(|_| [t.range(5, 60), t.below(4)][t.weighted(&[3, 1])]).collect();
    let (rows, pad) = (t.range(1, 6), [8, 0, 200][t.weighted(&[3, 1, 1])]);
    let (ctx_mode, yield_every) = (t.chance(1, 3), [0, 1, 3][t.weighted(&[3, 1, 1])]);
    let w = wide(chunks, &|c| counts[c], rows, pad, ctx_mode, yield_every);
    let w2 = wide(chunks, &|c| counts[c], rows, pad, ctx_mode, 0);
    let parts = parts_of(&s);
    let mut readers = HashMap::new();
    for i in 0..s.consumers {
        for p in 0..parts {
            let r = match t.weighted(&[5, 1, 1, 4, 1, 1]) {
                0 => Reader::All,
                1 => Reader::SlowMs(1),
                2 => Reader::Yields(t.range(1, 20)),
                3 => Reader::StopAfter(t.range(0, 6)),
                4 => Reader::Never,
                _ => Reader::OpenDrop,
            };
            if r == Reader::SlowMs(1) && counts.iter().sum::<usize>() > 60 {
                continue;
            }
            readers.insert((i, p), r);
        }
    }
    let mut seq = vec![];
    if t.chance(1, 3) && s.consumers == 1 {
        seq = (0..parts).collect();
        t.shuffle(&mut seq);
    }
    let log = ProbeLog::new(readers, seq);
    let desc = format!(
        "{} {} tasks x {} partitions -> {} tasks x {parts} partitions; batches/chunk={counts:?} rows/batch={rows} pad={pad} ctx_mode={ctx_mode} yields={yield_every} workers={workers} threads={threads} {opts:?}\n{}",
        kind_name(s.kind),
        s.producers,
        s.scan_parts,
        s.consumers,
        log_text(&log)
    );
    let d = desc.clone();
    guard(threads, &desc, async move {
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let all = ProbeLog::plain();
        if let Err(e) = run_placed(&cluster, &Opts { batch_size: opts.batch_size, ..Default::default() }, build(&s, &w2.data, &all)).await {
            return fail(&err_sig(&e), format!("failed: {e}"), &d);
        }
        let want: HashMap<(usize, usize), Vec<String>> = all.runs().iter().map(|r| (r.place(), sorted(r.rows()))).collect();
        let total: usize = want.values().map(|v| v.len()).sum();
        if total != w.data.total_rows() * if s.kind == 2 { s.consumers } else { 1 } {
            return fail("rows", format!("{total} rows came out of the plain readers, the table has {}", w.data.total_rows()), &d);
        }
        let plan = match run_placed(&cluster, &opts, build(&s, &w.data, &log)).await {
            Ok(x) => x.1,
            Err(e) => return fail(&err_sig(&e), format!("failed: {e}"), &d),
        };
        let d = format!("{d}\n{}", display_plan_ascii(plan.as_ref(), false));
        let (mut complete, mut left) = (0, 0);
        for r in log.runs() {
            let got = r.rows();
            let w = want.get(&r.place()).cloned().unwrap_or_default();
            // (a hash repartitioning itself does not keep the order of its input)
            if s.kind != 1 && let Err(m) = in_order(&r.batches) {
                return fail("order", format!("task {} partition {}: {m}", r.task, r.partition), &d);
            }
            let left_early = !r.finished;
            if left_early {
                left += 1;
                if let Some(m) = submultiset(&got, &w) {
                    return fail("rows", format!("task {} partition {}: {m}", r.task, r.partition), &d);
                }
                if !matches!(r.reader, Reader::StopAfter(_) | Reader::Never | Reader::OpenDrop) {
                    return fail("unfinished", format!("task {} partition {} was not read to its end", r.task, r.partition), &d);
                }
            } else {
                complete += 1;
                if let Some(m) = diff_multiset(&sorted(got), &w) {
                    return fail("rows", format!("task {} partition {} ({:?}): {m}", r.task, r.partition, r.reader), &d);
                }
            }
        }
        let mut info = Info { desc: d, ..Default::default() };
        info.nontrivial = complete > 0 && parts > 1 && total > 20;
        info.class(kind_name(s.kind));
        if left > 0 && complete > 0 {
            info.class("some partitions dropped early");
        }
        if !log.sequence.is_empty() {
            info.class("partitions read one after the other");
        }
        if opts.budget < 4096 {
            info.class("tiny budget");
        }
        if w.batches > 20 {
            info.class("20+ batches in a partition");
        }
        Res::Ok(info)
    })
}

/// All consumers pause after their first batches: what is held for them meanwhile is bounded.
fn hold(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[4, 1])];
    let workers = t.range(1, 3);
    let opts = Opts {
        batch_size: [64, 16, 8192][t.weighted(&[2, 1, 1])],
        compression: [0, 1][t.weighted(&[2, 1])],
        shuffle_batch: [64, 16, 300][t.weighted(&[2, 1, 1])],
        budget: [1, 4000, 40_000, 150_000][t.weighted(&[3, 2, 2, 1])],
        ..Default::default()
    };
    let s = Shape {
        kind: t.weighted(&[2, 2, 1]),
        producers: [2, 3][t.weighted(&[3, 1])],
        consumers: 1,
        scan_parts: t.range(1, 3),
        shuffle_parts: t.range(1, 4),
    };
    let chunks = s.producers * s.scan_parts;
    let (batches, rows, pad) = (t.range(60, 240), 16, 128);
    let w = wide(chunks, &|_| batches, rows, pad, t.chance(1, 3), 0);
    let parts = parts_of(&s);
    let first = [1, 2, 5][t.weighted(&[3, 1, 1])];
    let log = ProbeLog::new((0..parts).map(|p| ((0, p), Reader::HoldAfter(first))).collect(), vec![]);
    let desc = format!(
        "{} {} tasks x {} partitions, {batches} batches of {rows} rows each -> {parts} partitions held after {first} batches; workers={workers} threads={threads} {opts:?}",
        kind_name(s.kind),
        s.producers,
        s.scan_parts
    );
    let d = desc.clone();
    guard(threads, &desc, async move {
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let plan = build(&s, &w.data, &log);
        let (ctx, plan) = match cluster.place(&opts, plan).await {
            Ok(x) => x,
            Err(e) => return fail(&err_sig(&e), format!("failed: {e}"), &d),
        };
        let l2 = Arc::clone(&log);
        let p2 = Arc::clone(&plan);
        let q = tokio::spawn(async move { run_plan(&ctx, &p2).await });
        // wait until nothing moves anymore
        let mut peak_worker = 0;
        let (mut last, mut still, t0) = ((0, 0, 0), 0, Instant::now());
        let mut quiet = false;
        while t0.elapsed() < Duration::from_secs(3) && !q.is_finished() {
            tokio::time::sleep(Duration::from_millis(4)).await;
            peak_worker = peak_worker.max(cluster.nodes.iter().map(|n| n.pool.used()).max().unwrap_or(0));
            let held: usize = l2.runs().iter().filter(|r| r.batches.len() >= first).count();
            let now = (w.data.rows_emitted.load(Ordering::SeqCst), cluster.coord_pool.used(), held);
            still = if now == last && held == parts { still + 1 } else { 0 };
            last = now;
            if still > 5 {
                quiet = true;
                break;
            }
        }
        let held = cluster.coord_pool.used();
        let done = q.is_finished();
        log.released.send_replace(true);
        let r = q.await.unwrap();
        if let Err(e) = r {
            return fail(&err_sig(&e), format!("failed: {e}"), &d);
        }
        let d = format!("{d}\nheld={held} peak_of_a_worker={peak_worker}\n{}", display_plan_ascii(plan.as_ref(), false));
        let n: usize = log.runs().iter().map(|r| r.rows().len()).sum();
        if n != w.data.total_rows() {
            return fail("rows", format!("{n} rows arrived after the pause of {}", w.data.total_rows()), &d);
        }
        for r in log.runs() {
            if s.kind != 1 && let Err(m) = in_order(&r.batches) {
                return fail("order", format!("partition {}: {m}", r.partition), &d);
            }
        }
        if done || !quiet {
            return Res::Discard("some partition never filled up to the pause".into());
        }
        // a message has at most the rows of a batch of the scan or of the batch size
        let row = w.pad + 40;
        let biggest = if s.kind == 1 { opts.batch_size.max(opts.shuffle_batch) } else { opts.batch_size };
        let msg = biggest.min(batches * rows).max(w.rows) * row + 2048;
        // (each partition of a connection waits for its first message)
        let bound = s.producers * (opts.budget + (parts + 2) * msg);
        // (on several threads a partition may get its first message arbitrarily later than its siblings)
        if threads == 0 && held > bound {
            return fail("held memory", format!("{held} bytes are held for consumers that do not read, the budget of {} connections allows {bound}", s.producers), &d);
        }
        let total = w.data.total_rows() * row;
        let mut info = Info { desc: d, ..Default::default() };
        info.nontrivial = threads == 0 && bound * 2 < total;
        info.class(kind_name(s.kind));
        if held > 0 {
            info.class("something held");
        }
        if opts.budget < 4096 {
            info.class("tiny budget");
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C18",
        rule: "deliver: several partitions, at least one read to its end, more than 20 rows. hold: single-threaded, all consumers pause before the end, and the input is at least twice the allowed memory",
        tape_len: 160,
        quick: 6000,
        thorough: 150000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &[
            "the bound on held memory is looked at while no consumer waits on an empty partition: then everything before its next row has to be taken in",
            "on several threads only delivery is checked, not the bound: how far partitions may drift apart before their first message depends on the machine",
            "connections over in-memory sockets",
        ],
        parts: vec![Part { name: "deliver", weight: 3, run: deliver }, Part { name: "hold", weight: 1, run: hold }],
    }
}

//! C11: any execution failure fails the query with that error, never a short result.
use super::c18::{Shape, build, kind_name, parts_of, sorted, wide};
use super::qcase::*;
use crate::cluster::*;
use crate::data::*;
use crate::oracle::*;
use crate::place::*;
use crate::probe::*;
use crate::runner::{Info, Part, Property, Res};
use crate::tape::Tape;
use datafusion::arrow::error::ArrowError;
use datafusion::common::{Column, DataFusionError, Diagnostic, SchemaError, TableReference};
use datafusion::sql::sqlparser::parser::ParserError;
use datafusion_distributed::display_plan_ascii;
use futures::FutureExt;
use parquet::errors::ParquetError;
use std::collections::HashMap;
use std::io::{Error as IoError, ErrorKind};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};

const MARK: &str = "E!marker";

fn message(t: &mut Tape) -> String {
    let long = |n: usize| "xyz ".repeat(n);
    let extra = match t.weighted(&[5, 1, 1, 1, 1, 1, 1]) {
        0 => String::new(),
        1 => "line one\nline two\r\n\tthree".into(),
        2 => "Ünïcode Ω 🦀 \u{0}".into(),
        3 => "{\"a\": [1, \"%20\"]} <x> $1 {}".into(),
        4 => long(300),
        5 => long(3000),
        _ => long(25000),
    };
    format!("{MARK} {extra}")
}

fn boxed(t: &mut Tape) -> Box<dyn std::error::Error + Send + Sync> {
    Box::new(IoError::other(message(t)))
}

fn io(t: &mut Tape) -> IoError {
    use ErrorKind::*;
    let kinds = [
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse,
        AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem,
        StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, FileTooLarge, ResourceBusy, ExecutableFileBusy,
        Deadlock, TooManyLinks, ArgumentListTooLong, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
    ];
    if t.chance(1, 10) {
        let e = IoError::from_raw_os_error(t.range(1, 40) as i32);
        // some kinds have no code on the wire
        return if !kinds.contains(&e.kind()) { IoError::other(e.to_string()) } else { e };
    }
    let k = *t.pick(&kinds);
    if t.chance(1, 10) { k.into() } else { IoError::new(k, message(t)) }
}

fn arrow(t: &mut Tape) -> ArrowError {
    match t.below(20) {
        0 => ArrowError::ComputeError(message(t)),
        1 => ArrowError::NotYetImplemented(message(t)),
        2 => ArrowError::ExternalError(boxed(t)),
        3 => ArrowError::CastError(message(t)),
        4 => ArrowError::MemoryError(message(t)),
        5 => ArrowError::ParseError(message(t)),
        6 => ArrowError::SchemaError(message(t)),
        7 => ArrowError::DivideByZero,
        8 => ArrowError::ArithmeticOverflow(message(t)),
        9 => ArrowError::CsvError(message(t)),
        10 => ArrowError::JsonError(message(t)),
        11 => {
            let m = message(t);
            ArrowError::IoError(m, io(t))
        }
        12 => ArrowError::IpcError(message(t)),
        13 => ArrowError::InvalidArgumentError(message(t)),
        14 => ArrowError::ParquetError(message(t)),
        15 => ArrowError::CDataInterface(message(t)),
        16 => ArrowError::DictionaryKeyOverflowError,
        17 => ArrowError::RunEndIndexOverflowError,
        18 => ArrowError::OffsetOverflowError(t.below(1 << 20)),
        _ => ArrowError::AvroError(message(t)),
    }
}

fn parquet_err(t: &mut Tape) -> ParquetError {
    match t.below(7) {
        0 => ParquetError::General(message(t)),
        1 => ParquetError::NYI(message(t)),
        2 => ParquetError::EOF(message(t)),
        3 => ParquetError::ArrowError(message(t)),
        4 => ParquetError::IndexOutOfBound(t.below(1000), t.below(1000)),
        5 => ParquetError::External(boxed(t)),
        _ => ParquetError::NeedMoreData(t.below(1 << 20)),
    }
}

fn store(t: &mut Tape) -> object_store::Error {
    use object_store::Error::*;
    let path = format!("a/b {}.parquet", t.below(10));
    match t.below(9) {
        0 => NotFound { path, source: boxed(t) },
        1 => Generic { store: "S3", source: boxed(t) },
        2 => NotSupported { source: boxed(t) },
        3 => AlreadyExists { path, source: boxed(t) },
        4 => Precondition { path, source: boxed(t) },
        5 => NotModified { path, source: boxed(t) },
        6 => NotImplemented { operation: message(t), implementer: "store".into() },
        7 => PermissionDenied { path, source: boxed(t) },
        _ => Unauthenticated { path, source: boxed(t) },
    }
}

fn schema_err(t: &mut Tape) -> SchemaError {
    let name = message(t);
    let mut c = |t: &mut Tape| match t.below(4) {
        0 => Column::new_unqualified("c0"),
        1 => Column::new(Some("t"), "C 1"),
        2 => Column::new(Some(TableReference::partial("s", "t")), "x"),
        _ => Column::new(Some(TableReference::full("c", "s", "T")), "x.y"),
    };
    match t.below(4) {
        0 => {
            let n = t.below(4);
            SchemaError::FieldNotFound { field: Box::new(c(t)), valid_fields: (0..n).map(|_| c(t)).collect() }
        }
        1 => SchemaError::AmbiguousReference { field: Box::new(c(t)) },
        2 => SchemaError::DuplicateQualifiedField { qualifier: Box::new(TableReference::partial("s", "t")), name },
        _ => SchemaError::DuplicateUnqualifiedField { name },
    }
}

pub fn build_error(t: &mut Tape, depth: usize) -> DataFusionError {
    use DataFusionError::*;
    let leaf = depth == 0;
    match t.weighted(&[3, 2, 2, 1, 1, 1, 1, 2, 2, 2, 1, 1, 1, 1, if leaf { 0 } else { 2 }, if leaf { 0 } else { 1 }, if leaf { 0 } else { 1 }, if leaf { 0 } else { 1 }]) {
        0 => Execution(message(t)),
        1 => External(boxed(t)),
        2 => ResourcesExhausted(message(t)),
        3 => Internal(message(t)),
        4 => Plan(message(t)),
        5 => NotImplemented(message(t)),
        6 => Configuration(message(t)),
        7 => {
            let e = arrow(t);
            ArrowError(Box::new(e), if t.chance(1, 4) { Some(message(t)) } else { None })
        }
        8 => ParquetError(Box::new(parquet_err(t))),
        9 => ObjectStore(Box::new(store(t))),
        10 => IoError(io(t)),
        11 => {
            let m = message(t);
            let e = match t.below(3) {
                0 => ParserError::ParserError(m),
                1 => ParserError::TokenizerError(m),
                _ => ParserError::RecursionLimitExceeded,
            };
            SQL(Box::new(e), if t.chance(1, 4) { Some(message(t)) } else { None })
        }
        12 => SchemaError(Box::new(schema_err(t)), Box::new(None)),
        13 => Substrait(message(t)),
        14 => {
            let m = message(t);
            Context(m, Box::new(build_error(t, depth - 1)))
        }
        15 => {
            let n = t.range(1, 3);
            Collection((0..n).map(|_| build_error(t, depth - 1)).collect())
        }
        16 => Shared(Arc::new(build_error(t, depth - 1))),
        _ => Diagnostic(Box::new(self::Diagnostic::new_error("d", None)), Box::new(build_error(t, depth - 1))),
    }
}

/// Shared is how one error is given to several readers.
fn strip(mut e: &DataFusionError) -> &DataFusionError {
    while let DataFusionError::Shared(x) = e {
        e = x;
    }
    e
}

/// The same kind and message? What is too long for the trailers of a response is cut short:
/// then the beginning of the message is left, in an error of the same kind or (for errors that
/// wrap the one of a library) an external one.
pub fn same_error(want: &DataFusionError, got: &DataFusionError) -> Result<(), String> {
    let Err(m) = same_error_strict(want, got) else {
        return Ok(());
    };
    if format!("{want:?}").len() < 6000 {
        return Err(m);
    }
    if cut_short(want, got) { Ok(()) } else { Err(m) }
}

fn cut_short(want: &DataFusionError, got: &DataFusionError) -> bool {
    use DataFusionError::*;
    let start = |s: &str| s.strip_prefix("External error: ").unwrap_or(s).chars().take(500).collect::<String>();
    match (strip(want), strip(got)) {
        (Context(a, x), Context(b, y)) => start(a) == start(b) && cut_short(x, y),
        (Diagnostic(_, x), Diagnostic(_, y)) => cut_short(x, y),
        (Collection(a), Collection(b)) => !b.is_empty() && b.len() <= a.len() && a.iter().zip(b).all(|(x, y)| cut_short(x, y)),
        (w, g) => {
            let kept = std::mem::discriminant(w) == std::mem::discriminant(g) || matches!(g, External(_));
            kept && start(&w.to_string()) == start(&g.to_string())
        }
    }
}

fn same_error_strict(want: &DataFusionError, got: &DataFusionError) -> Result<(), String> {
    use DataFusionError::*;
    let (want, got) = (strip(want), strip(got));
    let short = |s: String| s.chars().take(300).collect::<String>();
    let differ = || Err(format!("want {:?}\ngot {:?}", short(format!("{want:?}")), short(format!("{got:?}"))));
    if std::mem::discriminant(want) != std::mem::discriminant(got) {
        return differ();
    }
    match (want, got) {
        (Context(a, x), Context(b, y)) => {
            if a != b {
                return differ();
            }
            return same_error_strict(x, y);
        }
        // what a diagnostic adds to its error is not transported
        (Diagnostic(_, x), Diagnostic(_, y)) => return same_error_strict(x, y),
        (Collection(a), Collection(b)) => {
            if a.len() != b.len() {
                return differ();
            }
            for (x, y) in a.iter().zip(b) {
                same_error_strict(x, y)?;
            }
            return Ok(());
        }
        (ArrowError(a, x), ArrowError(b, y)) if std::mem::discriminant(&**a) != std::mem::discriminant(&**b) || x != y => return differ(),
        (ParquetError(a), ParquetError(b)) if std::mem::discriminant(&**a) != std::mem::discriminant(&**b) => return differ(),
        (ObjectStore(a), ObjectStore(b)) if std::mem::discriminant(&**a) != std::mem::discriminant(&**b) => return differ(),
        (IoError(a), IoError(b)) if a.kind() != b.kind() => return differ(),
        (SQL(a, x), SQL(b, y)) if a != b || x != y => return differ(),
        _ => {}
    }
    if want.to_string() == got.to_string() { Ok(()) } else { differ() }
}

/// Errors of every kind raised in a leaf below a chain of stages.
fn kinds(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let workers = t.range(1, 3);
    let opts = gen_opts(t, workers);
    let data = id_table(t, 0, 20, false);
    let error: Vec<u32> = (0..12).map(|_| t.raw()).collect();
    let depth = t.weighted(&[4, 2, 1, 1]);
    let raise = {
        let error = error.clone();
        move || build_error(&mut Tape::new(&error), depth)
    };
    let c = t.below(data.chunks.len());
    let slot = t.below(data.chunks[c].len() + 1);
    let slot = if slot == data.chunks[c].len() { usize::MAX } else { slot };
    let at = t.weighted(&[6, 2, 1]);
    let want = raise();
    let decoded = Arc::new(AtomicBool::new(false));
    let where_ = match at {
        0 => {
            data.faults.lock().unwrap().insert((c, slot), Fault::Error(Arc::new(raise.clone())));
            format!("in chunk {c} at batch {slot}")
        }
        1 => {
            let r = raise.clone();
            *data.exec_fault.lock().unwrap() = Some(Arc::new(move |_, p| if p == 0 { Err(r()) } else { Ok(()) }));
            "executing partition 0".into()
        }
        _ => {
            let r = raise.clone();
            let hit = Arc::clone(&decoded);
            *data.decode_fault.lock().unwrap() = Some(Arc::new(move || {
                hit.store(true, Ordering::SeqCst);
                Err(r())
            }));
            "decoding the scan".into()
        }
    };
    let parts = t.range(1, 4);
    let plan = scan(&data, parts);
    let mut chain = gen_chain(t, plan, 4, &mut |_, p, _, _| p);
    // a plan that stays at the coordinator has nothing to send
    let local_only = chain.tasks.iter().all(|n| *n == 1);
    chain.text = format!("workers={workers} {} error {want:?} {where_} {opts:?}", chain.text);
    let desc: String = chain.text.chars().take(1500).collect();
    let d = desc.clone();
    guard(0, &desc, async move {
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        let err = match run_placed(&cluster, &opts, chain.plan).await {
            Err(e) => e,
            Ok((a, plan)) => {
                if at == 2 && !decoded.load(Ordering::SeqCst) {
                    return Res::Ok(Info { desc: d, ..Default::default() });
                }
                return fail("failure not reported", format!("the query returned {} rows\n{}", a.n(), display_plan_ascii(plan.as_ref(), false)), &d);
            }
        };
        // what a plan cannot be decoded for is wrapped while decoding
        let got = if at == 2 { find_same(&want, &err) } else { same_error(&want, &err) };
        if let Err(m) = got {
            return fail(&format!("error changed: {}", name_of(&want)), m, &d);
        }
        let mut info = Info { desc: d, ..Default::default() };
        info.nontrivial = !local_only && cluster.shared.setplans.load(Ordering::SeqCst) > 0;
        info.class(["raised in a stream", "raised at execution", "raised at decoding"][at]);
        info.class(format!("kind {}", name_of(&want)));
        if chain.tasks.len() > 2 {
            info.class("two or more hops");
        }
        Res::Ok(info)
    })
}

fn find_same(want: &DataFusionError, got: &DataFusionError) -> Result<(), String> {
    let first = same_error(want, got);
    if first.is_ok() {
        return first;
    }
    if let DataFusionError::Context(_, x) = strip(got) {
        return find_same(want, x);
    }
    first
}

fn name_of(e: &DataFusionError) -> String {
    let s = format!("{:?}", strip(e));
    let n: String = s.chars().take_while(|c| c.is_alphanumeric()).collect();
    match strip(e) {
        DataFusionError::ArrowError(..) | DataFusionError::ParquetError(_) | DataFusionError::ObjectStore(_) => {
            let rest: String = s[n.len()..].trim_start_matches('(').chars().take_while(|c| c.is_alphanumeric()).collect();
            format!("{n}({rest})")
        }
        _ => n,
    }
}

/// Failures of workers and connections below a chain of stages.
fn transport(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[2, 1])];
    let workers = t.range(1, 4);
    let opts = gen_opts(t, workers);
    let data = id_table(t, 0, 40, false);
    let parts = t.range(1, 4);
    let plan = scan(&data, parts);
    let chain = gen_chain(t, plan, 4, &mut |_, p, _, _| p);
    let n = t.below(8);
    let what = t.weighted(&[2, 2, 3, 3, 2, 2, 2]);
    let c = t.below(data.chunks.len());
    let slot = t.below(data.chunks[c].len() + 1);
    let slot = if slot == data.chunks[c].len() { usize::MAX } else { slot };
    let victim = t.below(workers);
    let k = t.below(3);
    let reset = t.bool();
    let delay = t.chance(1, 3).then(|| (t.below(6), t.range(1, 20) as u64));
    let m = format!("{MARK} {n}");
    let text = ["sending a plan fails", "a request fails", "a stream breaks", "a panic", "a connection is cut", "a worker session cannot be built", "a panic at execution"][what];
    let desc = format!("workers={workers} threads={threads} {} {text}: n={n} chunk={c} slot={slot} victim={victim} after={k} reset={reset} delay={delay:?} {opts:?}", chain.text);
    let d = desc.clone();
    guard(threads, &desc, async move {
        let refuse = m.clone();
        let customize: Option<CustomizeBuilder> = (what == 5).then(|| {
            Arc::new(move |node: i32, _: http::HeaderMap, b: datafusion::execution::SessionStateBuilder| {
                if node == victim as i32 { Err(DataFusionError::Execution(refuse.clone())) } else { Ok(b) }
            }) as CustomizeBuilder
        });
        let cluster = Cluster::start(ClusterCfg { workers, customize, cuttable: what == 4, ..Default::default() });
        let mut net = vec![];
        if let Some((i, ms)) = delay {
            net.push(NetFault::DelaySetPlan(i, ms));
        }
        match what {
            0 => net.push(NetFault::SetPlan(n, m.clone())),
            1 => net.push(NetFault::Exec(n, m.clone())),
            2 => net.push(NetFault::ExecStream(n, k, m.clone())),
            3 => {
                data.faults.lock().unwrap().insert((c, slot), Fault::Panic(m.clone()));
            }
            4 => {
                let cut = cluster.nodes[victim].addr.cut.clone().unwrap();
                data.faults.lock().unwrap().insert((c, slot), Fault::Call(Arc::new(move || if reset { cut.reset() } else { cut.cut() })));
            }
            6 => {
                let m = m.clone();
                *data.exec_fault.lock().unwrap() = Some(Arc::new(move |_, p| if p == 0 { panic!("{m}") } else { Ok(()) }));
            }
            _ => {}
        }
        *cluster.shared.faults.lock().unwrap() = net;
        let out = run_placed(&cluster, &opts, chain.plan).await;
        let hits = cluster.shared.faults_hit.load(Ordering::SeqCst);
        // a plan refused by a worker
        let refused = cluster.shared.events().iter().any(|e| matches!(e, Event::SetPlan { target, .. } if *target == node_url(victim)));
        let mut info = Info { desc: d.clone(), ..Default::default() };
        match out {
            Ok((a, plan)) => {
                let d = format!("{d}\n{}", display_plan_ascii(plan.as_ref(), false));
                let all: Vec<_> = data.chunks.iter().flatten().cloned().collect();
                let mut want = vec![];
                (0..chain.times).for_each(|_| want.extend(rows(&all)));
                if let Some(m) = diff_multiset(&a.rows(), &want) {
                    return fail("short result", m, &d);
                }
                let must = match what {
                    0..=2 => hits > 0,
                    3 | 6 => true,
                    5 => refused && opts.local != Some(victim),
                    _ => false,
                };
                if must {
                    return fail("failure not reported", format!("{text}, the query returned {} rows", a.n()), &d);
                }
                info.class("fault without effect");
            }
            Err(e) => {
                let caused = match what {
                    0..=2 => hits > 0,
                    _ => true,
                };
                if !caused {
                    return fail(&err_sig(&e), format!("failed without a fault: {e}"), &d);
                }
                if [0, 1, 2, 5].contains(&what) && !e.to_string().contains(&m) {
                    return fail(&format!("error replaced: {text}"), format!("{e} instead of {m}"), &d);
                }
                info.nontrivial = true;
                info.class(text);
            }
        }
        Res::Ok(info)
    })
}

/// A failure while some readers of the connection have left: each of the others sees the failure or
/// gets all of its rows.
fn siblings(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[2, 1])];
    let workers = t.range(1, 3);
    let mut opts = gen_opts(t, workers);
    opts.budget = [1, 2000, 64 << 20][t.weighted(&[2, 2, 1])];
    opts.shuffle_batch = [16, 3, 64, 0][t.weighted(&[3, 2, 2, 1])];
    let s = Shape {
        kind: t.weighted(&[3, 3, 2]),
        producers: [2, 1, 3][t.weighted(&[4, 1, 1])],
        consumers: [1, 2][t.weighted(&[3, 1])],
        scan_parts: t.range(1, 4),
        shuffle_parts: t.range(2, 6),
    };
    let chunks = s.producers * s.scan_parts;
    let counts: Vec<usize> = (0..chunks).map(|_| t.range(2, 40)).collect();
    let (ctx_mode, yield_every) = (t.chance(1, 3), [0, 1][t.weighted(&[2, 1])]);
    let rows_per = t.range(1, 20);
    let w = wide(chunks, &|c| counts[c], rows_per, 8, ctx_mode, yield_every);
    let w2 = wide(chunks, &|c| counts[c], rows_per, 8, ctx_mode, 0);
    let parts = parts_of(&s);
    let what = t.weighted(&[4, 2, 2, 2]);
    let c = t.below(chunks);
    let slot = [counts[c] - 1, t.below(counts[c]), usize::MAX][t.weighted(&[2, 2, 1])];
    let (n, k) = (t.below(6), t.below(6));
    let victim = t.below(workers);
    let reset = t.bool();
    let mut readers = HashMap::new();
    for i in 0..s.consumers {
        for p in 0..parts {
            match t.weighted(&[4, 4, 1, 1, 1]) {
                0 => {}
                1 => drop(readers.insert((i, p), Reader::StopAfter(t.range(0, 3)))),
                2 => drop(readers.insert((i, p), Reader::Never)),
                3 => drop(readers.insert((i, p), Reader::OpenDrop)),
                _ => drop(readers.insert((i, p), Reader::Yields(t.range(1, 8)))),
            }
        }
    }
    let log = ProbeLog::new(readers, vec![]);
    log.swallow.store(true, Ordering::SeqCst);
    let text = ["an error", "a panic", "a connection is cut", "a stream breaks"][what];
    let desc = format!(
        "{} {} tasks x {} partitions -> {} tasks x {parts} partitions; batches/chunk={counts:?} rows/batch={rows_per} ctx_mode={ctx_mode} yields={yield_every} workers={workers} threads={threads} {text}: chunk={c} slot={slot} n={n} after={k} victim={victim} reset={reset} {opts:?}\n{}",
        kind_name(s.kind),
        s.producers,
        s.scan_parts,
        s.consumers,
        log_text(&log)
    );
    let d = desc.clone();
    guard(threads, &desc, async move {
        let cluster = Cluster::start(ClusterCfg { workers, cuttable: what == 2, ..Default::default() });
        let all = ProbeLog::plain();
        if let Err(e) = run_placed(&cluster, &Opts { batch_size: opts.batch_size, ..Default::default() }, build(&s, &w2.data, &all)).await {
            return fail(&err_sig(&e), format!("failed: {e}"), &d);
        }
        let want: HashMap<(usize, usize), Vec<String>> = all.runs().iter().map(|r| (r.place(), sorted(r.rows()))).collect();
        match what {
            0 => drop(w.data.faults.lock().unwrap().insert((c, slot), Fault::Error(Arc::new(|| DataFusionError::Execution(MARK.into()))))),
            1 => drop(w.data.faults.lock().unwrap().insert((c, slot), Fault::Panic(MARK.into()))),
            2 => {
                let cut = cluster.nodes[victim].addr.cut.clone().unwrap();
                w.data.faults.lock().unwrap().insert((c, slot), Fault::Call(Arc::new(move || if reset { cut.reset() } else { cut.cut() })));
            }
            _ => {
                let n = cluster.shared.execs.load(Ordering::SeqCst) + n;
                *cluster.shared.faults.lock().unwrap() = vec![NetFault::ExecStream(n, k, MARK.into())];
            }
        }
        let out = run_placed(&cluster, &opts, build(&s, &w.data, &log)).await;
        let (mut left, mut failed, mut complete) = (0, 0, 0);
        for r in log.runs() {
            if r.error.is_some() {
                failed += 1;
                continue;
            }
            if !r.finished {
                left += 1;
                continue;
            }
            complete += 1;
            let w = want.get(&r.place()).cloned().unwrap_or_default();
            if let Some(m) = diff_multiset(&sorted(r.rows()), &w) {
                return fail("short partition", format!("{text}; task {} partition {} ends without an error: {m}", r.task, r.partition), &d);
            }
        }
        let mut info = Info { desc: d, ..Default::default() };
        info.nontrivial = failed > 0 || out.is_err();
        info.class(format!("{text} for {}", kind_name(s.kind)));
        if failed > 0 && left > 0 {
            info.class("others had left");
        }
        if failed > 0 && complete > 0 {
            info.class("some complete, some failed");
        }
        Res::Ok(info)
    })
}

/// Failures in leaves of SQL queries.
fn sql(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let c = CaseCfg { adaptive_sometimes: true, ..Default::default() };
    let s = decode(t, &c);
    let victim = t.below(s.tables.len());
    let data = Arc::clone(&s.tables[victim].data);
    if data.chunks.is_empty() {
        return Res::Discard("no chunk".into());
    }
    let ch = t.below(data.chunks.len());
    let slot = t.below(data.chunks[ch].len() + 1);
    let slot = if slot == data.chunks[ch].len() { usize::MAX } else { slot };
    let panics = t.chance(1, 3);
    let error: Vec<u32> = (0..6).map(|_| t.raw()).collect();
    let want = build_error(&mut Tape::new(&error), 0);
    if matches!(want, DataFusionError::ResourcesExhausted(_)) {
        // operators may react to it by executing their input in another way
        return Res::Discard("lack of memory".into());
    }
    let marked = want.to_string().contains(MARK);
    let f = if panics { Fault::Panic(format!("{MARK} panic")) } else { Fault::Error(Arc::new(move || build_error(&mut Tape::new(&error), 0))) };
    let desc: String = format!("{}\nt{victim} chunk {ch} slot {slot}: {}", s.describe(), if panics { "panic".into() } else { format!("{want:?}") }).chars().take(6000).collect();
    let d = desc.clone();
    let threads = s.threads;
    guard(threads, &desc, async move {
        let exp = std::panic::AssertUnwindSafe(expected(&s.tables, &s.query)).catch_unwind().await;
        let exp = match exp.unwrap_or_else(|p| panicked(p)) {
            Ok(e) => e,
            Err(e) => return Res::Discard(format!("reference: {}", sig_of_error(&e.to_string()))),
        };
        if exp.work / s.opts.batch_size.clamp(1, 20) > 10_000 {
            return Res::Discard("too much work".into());
        }
        data.faults.lock().unwrap().insert((ch, slot), f);
        let cluster = Cluster::start(ClusterCfg { workers: s.workers, ..Default::default() });
        let ctx = cluster.session(&s.opts);
        for t in &s.tables {
            ctx.register_table(t.name.as_str(), t.provider()).unwrap();
        }
        let sql = s.query.sql();
        let planned = std::panic::AssertUnwindSafe(async { ctx.sql(&sql).await?.create_physical_plan().await }).catch_unwind().await.unwrap_or_else(|p| panicked(p));
        let plan = match planned {
            Ok(p) => p,
            Err(e) => return Res::Discard(format!("planning: {}", sig_of_error(&e.to_string()))),
        };
        let out = std::panic::AssertUnwindSafe(run_plan(&ctx, &plan)).catch_unwind().await.unwrap_or_else(|p| panicked(p));
        let hits = data.faults_hit.load(Ordering::SeqCst);
        let d = format!("{d}\n{}", display_plan_ascii(plan.as_ref(), false));
        let mut info = Info { desc: d.clone(), ..Default::default() };
        match out {
            Ok(a) => {
                if let Err((kind, m)) = compare(&s.query, &exp, &a) {
                    data.faults.lock().unwrap().clear();
                    let sig = format!("mismatch:{kind}");
                    if let Some(why) = upstream_excuse(&s, &exp, &sig, &m, Some(&plan)).await {
                        return Res::Discard(why);
                    }
                    // does the query have the right answer without the fault?
                    let sane = std::panic::AssertUnwindSafe(async { run(&ctx, &sql).await }).catch_unwind().await.unwrap_or_else(|p| panicked(p));
                    if !sane.is_ok_and(|(a, _)| compare(&s.query, &exp, &a).is_ok()) {
                        return Res::Discard("wrong without the fault".into());
                    }
                    return fail(if hits > 0 { "short result" } else { &sig }, format!("{m} (fault hit {hits} times)"), &d);
                }
                // Operators that read only a part of their input may leave the failing part unread.
                let complete = ["join", "limit", "subquery", "exists", "in", "semi", "setop", "cte", "intersect", "except", "lateral"];
                if hits > 0 && s.query.limit.is_none() && !s.query.features.iter().any(|f| complete.iter().any(|c| f.contains(c))) && !sql.contains("LIMIT") && !sql.contains("SELECT DISTINCT") && !panics {
                    return fail("failure not reported", format!("hit {hits} times, the query returned {} rows", a.n()), &d);
                }
                info.class(if hits > 0 { "hit, not needed" } else { "not hit" });
            }
            Err(e) => {
                if hits == 0 {
                    data.faults.lock().unwrap().clear();
                    let sig = err_sig(&e);
                    return match upstream_excuse(&s, &exp, &sig, &e.to_string(), Some(&plan)).await {
                        Some(why) => Res::Discard(why),
                        None => fail(&sig, format!("failed without a fault: {e}"), &d),
                    };
                }
                if marked && !panics && !e.to_string().contains(MARK) {
                    if let Some(why) = upstream_excuse(&s, &exp, &err_sig(&e), &e.to_string(), Some(&plan)).await {
                        return Res::Discard(why);
                    }
                    return fail("error replaced", format!("{e} instead of {want}"), &d);
                }
                info.nontrivial = cluster.shared.setplans.load(Ordering::SeqCst) > 0;
                info.class(if panics { "panic" } else { "error" });
                for (n, _) in boundaries(&plan) {
                    if !info.classes.contains(&n) {
                        info.class(n);
                    }
                }
            }
        }
        Res::Ok(info)
    })
}

pub fn property() -> Property {
    Property {
        id: "C11",
        rule: "a failure was injected in a plan with remote tasks and the query ended with an error",
        tape_len: 300,
        quick: 5000,
        thorough: 200000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["join errors and FFI errors cannot be rebuilt and change kind by design; diagnostics are dropped by design", "the transport is gRPC on in-memory connections", "an error whose message is over 6000 bytes may arrive cut short", "no lack of memory in SQL queries: operators react to it in their own way"],
        parts: vec![Part { name: "kinds", weight: 2, run: kinds }, Part { name: "transport", weight: 3, run: transport }, Part { name: "siblings", weight: 3, run: siblings }, Part { name: "sql", weight: 4, run: sql }],
    }
}

//! Parallel, seeded, shrinking case runner on top of proptest's generators.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct Info {
    /// Non-trivial by the rule stated for the property.
    pub nontrivial: bool,
    /// Class labels, counted in the evidence.
    pub classes: Vec<String>,
    /// Human readable description of the decoded case.
    pub desc: String,
}

impl Info {
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into());
    }
}

#[derive(Clone, Debug)]
pub enum Res {
    Ok(Info),
    /// (signature, message). The signature identifies the failing input/call site for known findings.
    Fail { sig: String, msg: String, desc: String },
    /// The case does not satisfy the domain (counted).
    Discard(String),
    /// The case did not finish within its watchdog.
    Hang { desc: String, idle: bool },
}

pub type CaseFn = fn(&[u32]) -> Res;

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub tape_len: usize,
    pub quick: usize,
    pub thorough: usize,
    pub threads: usize,
    /// a confirmed idle hang contradicts the statement of this property
    pub hang_is_violation: bool,
    pub assumptions: &'static [&'static str],
    /// Name of sub-checks: each has own case function and share of the cases (weight).
    pub parts: Vec<Part>,
}

pub struct Part {
    pub name: &'static str,
    pub weight: usize,
    pub run: CaseFn,
}

fn hash64(parts: &[&str], nums: &[u64]) -> u64 {
    // FNV-1a, stable across runs
    let mut h: u64 = 0xcbf29ce484222325;
    let mut feed = |b: u8| {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    };
    for p in parts {
        for b in p.bytes() {
            feed(b)
        }
        feed(0)
    }
    for n in nums {
        for b in n.to_le_bytes() {
            feed(b)
        }
    }
    h
}

pub fn gen_tape(id: &str, part: &str, seed: u64, index: u64, len: usize) -> Vec<u32> {
    let mut bytes = [0u8; 32];
    for k in 0..4u64 {
        let h = hash64(&[id, part], &[seed, index, k]);
        bytes[(k as usize) * 8..(k as usize + 1) * 8].copy_from_slice(&h.to_le_bytes());
    }
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
    let mut runner = TestRunner::new_with_rng(
        Config { failure_persistence: None, ..Config::default() },
        rng,
    );
    let strat = proptest::collection::vec(proptest::num::u32::ANY, len..=len);
    strat.new_tree(&mut runner).expect("tape").current()
}

/// Runs one case, converting a panic of the harness or of code called synchronously into a failure.
pub fn run_case(f: CaseFn, tape: &[u32]) -> Res {
    let _journal = Journal::start(f, tape);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(tape))) {
        Ok(r) => r,
        Err(p) => {
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Res::Fail { sig: format!("panic:{}", first_line(&msg)), msg: format!("panicked: {msg}"), desc: String::new() }
        }
    }
}

/// While a case runs, its tape is in a file, so that the supervising process can tell which input
/// ended the process (stack overflow, abort, out of memory).
struct Journal(Option<PathBuf>);

fn journal_dir() -> Option<PathBuf> {
    std::env::var_os("VP_JOURNAL").map(PathBuf::from)
}

impl Journal {
    fn start(f: CaseFn, tape: &[u32]) -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let Some(dir) = journal_dir() else { return Self(None) };
        let path = dir.join(format!("{}.json", N.fetch_add(1, Ordering::Relaxed)));
        let fid = f as usize;
        let _ = std::fs::write(&path, json!({"part_fn": part_name(fid), "tape": tape}).to_string());
        Self(Some(path))
    }
}

impl Drop for Journal {
    fn drop(&mut self) {
        if let Some(p) = &self.0 {
            let _ = std::fs::remove_file(p);
        }
    }
}

static PART_NAMES: Mutex<Vec<(usize, &'static str)>> = Mutex::new(vec![]);

fn part_name(f: usize) -> &'static str {
    PART_NAMES.lock().unwrap().iter().find(|p| p.0 == f).map(|p| p.1).unwrap_or("")
}

/// Runs the check in a child process and judges the inputs in flight if the child dies.
pub fn supervise(p: &Property, seed: u64, thorough: bool, root: &Path) -> i32 {
    let started = Instant::now();
    let dir = std::env::temp_dir().join(format!("vp-journal-{}-{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let exe = std::env::current_exe().expect("exe");
    let mut child = std::process::Command::new(&exe)
        .args(["check-inner", p.id])
        .args(if thorough { vec!["--thorough"] } else { vec![] })
        .env("VP_JOURNAL", &dir)
        .env("VERIF_SEED", seed.to_string())
        .spawn()
        .expect("child");
    let limit = Duration::from_secs(if thorough { 4 * 3600 } else { 780 });
    let status = wait_limit(&mut child, limit);
    let code = match status.as_ref().and_then(|s| s.code()) {
        Some(c @ 0..=2) => c,
        other => {
            println!("the check process ended abnormally ({other:?}, {status:?}); judging the inputs in flight one by one");
            let mut code = 2;
            let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
            files.sort();
            for f in files.iter().take(8) {
                let Ok(v) = serde_json::from_str::<Value>(&std::fs::read_to_string(f).unwrap_or_default()) else { continue };
                let tape: Vec<u32> = v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
                let part = v["part_fn"].as_str().unwrap_or("").to_string();
                let path = save_replay(root, p.id, &part, &tape, "process death", "the process running this input died", "");
                let mut again = 0;
                for _ in 0..2 {
                    let Ok(mut c) = std::process::Command::new(&exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn() else { continue };
                    match wait_limit(&mut c, Duration::from_secs(90)) {
                        Some(s) if s.code().is_none() => again += 1,
                        _ => break,
                    }
                }
                if again == 2 {
                    println!("signature: process death\nthe process running this input dies each time (stack overflow, abort or memory)");
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    code = 1;
                    break;
                }
                let _ = std::fs::remove_file(&path);
            }
            let ev = json!({
                "property": p.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
                "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": p.rule, "samples": [], "note": "the check process died"},
                "wall_s": started.elapsed().as_secs_f64(), "violations": (code == 1) as i32,
            });
            let _ = std::fs::create_dir_all(root.join("evidence"));
            let _ = std::fs::write(root.join("evidence").join(format!("{}.json", p.id)), ev.to_string());
            if code == 2 {
                println!("ERROR property={} the check process died and no single input reproduces it", p.id);
            }
            code
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn wait_limit(child: &mut std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    loop {
        if let Ok(Some(s)) = child.try_wait() {
            return Some(s);
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn first_line(s: &str) -> String {
    s.lines().next().unwrap_or("").chars().take(160).collect()
}

/// Hypothesis-style tape shrinking: cut the tail, delete chunks, zero chunks, lower single entries.
pub fn shrink(f: CaseFn, tape: Vec<u32>, first: Res, budget: Duration, max_runs: usize) -> (Vec<u32>, Res, usize) {
    let start = Instant::now();
    let mut best = tape;
    let mut best_res = first;
    let mut runs = 0usize;
    let fails = |t: &[u32], runs: &mut usize| -> Option<Res> {
        *runs += 1;
        match run_case(f, t) {
            r @ Res::Fail { .. } => Some(r),
            _ => None,
        }
    };
    let over = |runs: usize| start.elapsed() > budget || runs >= max_runs;
    // tail truncation by halving
    let mut keep = best.len() / 2;
    while keep < best.len() && !over(runs) {
        let cand = best[..keep].to_vec();
        if let Some(r) = fails(&cand, &mut runs) {
            best = cand;
            best_res = r;
            keep = best.len() / 2;
            if best.is_empty() {
                break;
            }
        } else {
            keep = (keep + best.len()).div_ceil(2);
            if keep >= best.len() {
                break;
            }
        }
    }
    let mut improved = true;
    while improved && !over(runs) {
        improved = false;
        for chunk in [32usize, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() && !over(runs) {
                let end = (i + chunk).min(best.len());
                // delete
                let mut cand = best.clone();
                cand.drain(i..end);
                if let Some(r) = fails(&cand, &mut runs) {
                    best = cand;
                    best_res = r;
                    improved = true;
                    continue;
                }
                // zero
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|v| *v = 0);
                    if !over(runs) && let Some(r) = fails(&cand, &mut runs) {
                        best = cand;
                        best_res = r;
                        improved = true;
                    }
                }
                i = end;
            }
        }
        // lower entries (mod a composite so that the small residues stay reachable)
        let mut i = 0;
        while i < best.len() && !over(runs) {
            for m in [2u32, 10, 100, 5040] {
                if best[i] >= m {
                    let mut cand = best.clone();
                    cand[i] %= m;
                    if let Some(r) = fails(&cand, &mut runs) {
                        best = cand;
                        best_res = r;
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    (best, best_res, runs)
}

pub struct Known {
    pub sig: String,
    pub what: String,
    pub part: String,
    pub tape: Vec<u32>,
}

pub fn load_known(root: &Path, id: &str) -> Vec<Known> {
    let mut out = vec![];
    let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) else { return out };
    for l in text.lines().filter(|l| !l.trim().is_empty()) {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["property"] == id && v["status"] == "known" {
            out.push(Known {
                sig: v["signature"].as_str().unwrap_or("").to_string(),
                what: v["what"].as_str().unwrap_or("").to_string(),
                part: v["part"].as_str().unwrap_or("").to_string(),
                tape: v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default(),
            });
        }
    }
    out
}

fn save_replay(root: &Path, id: &str, part: &str, tape: &[u32], sig: &str, msg: &str, desc: &str) -> PathBuf {
    let dir = root.join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let h = hash64(&[id, part, sig], &tape.iter().map(|v| *v as u64).collect::<Vec<_>>());
    let path = dir.join(format!("{id}-{h:016x}.json"));
    let v = json!({"property": id, "part": part, "tape": tape, "signature": sig, "message": msg, "case": desc});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

#[derive(Default)]
struct Stats {
    evals: usize,
    discards: BTreeMap<String, usize>,
    classes: BTreeMap<String, usize>,
    nontrivial: HashSet<u64>,
    samples: Vec<Value>,
    known_hits: BTreeMap<String, usize>,
    inconclusive: Vec<String>,
    per_part: BTreeMap<String, usize>,
}

struct Failure {
    part: usize,
    index: u64,
    tape: Vec<u32>,
    res: Res,
}

/// Runs a property; returns the process exit code.
pub fn run_property(p: &Property, seed: u64, thorough: bool, root: &Path) -> i32 {
    let started = Instant::now();
    for part in &p.parts {
        PART_NAMES.lock().unwrap().push((part.run as usize, part.name));
    }
    let known = load_known(root, p.id);
    let stats = Arc::new(Mutex::new(Stats::default()));
    let failures: Arc<Mutex<Vec<Failure>>> = Default::default();
    let hangs: Arc<Mutex<Vec<Failure>>> = Default::default();
    let stop = Arc::new(AtomicBool::new(false));

    let mut violation_out: Option<(String, String)> = None;

    // 1. Replay tier: saved inputs (regressions of fixed findings and of the corpus).
    let corpus = root.join("corpus").join(p.id);
    let mut corpus_n = 0usize;
    if let Ok(rd) = std::fs::read_dir(&corpus) {
        let mut files: Vec<_> = rd.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "json")).collect();
        files.sort();
        for file in files {
            let Ok(v) = serde_json::from_str::<Value>(&std::fs::read_to_string(&file).unwrap_or_default()) else { continue };
            let tape: Vec<u32> = v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
            let Some(part) = p.parts.iter().position(|q| v["part"] == q.name) else { continue };
            corpus_n += 1;
            let r = run_case(p.parts[part].run, &tape);
            record(p, part, &tape, &r, &stats, &known, &failures, &hangs, u64::MAX, &stop);
        }
    }
    // 2. Known findings: each listed input must still be identified as such.
    for k in &known {
        if let Some(part) = p.parts.iter().position(|q| q.name == k.part) {
            match run_case(p.parts[part].run, &k.tape) {
                Res::Fail { sig, .. } if sig == k.sig => {
                    println!("KNOWN-FINDING: property={} {}", p.id, k.what);
                }
                other => {
                    // the listed input does not fail any more (or fails differently): judged like any case
                    record(p, part, &k.tape, &other, &stats, &known, &failures, &hangs, u64::MAX, &stop);
                    println!("note: known finding not reproduced: {}", k.what);
                }
            }
        } else {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }

    // 3. Generated cases.
    let scale: f64 = std::env::var("VP_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
    let total = ((if thorough { p.thorough } else { p.quick }) as f64 * scale).ceil() as usize;
    let wsum: usize = p.parts.iter().map(|q| q.weight).sum();
    let mut plan: Vec<(usize, u64)> = vec![];
    for (pi, part) in p.parts.iter().enumerate() {
        let n = (total * part.weight).div_ceil(wsum);
        for i in 0..n as u64 {
            plan.push((pi, i));
        }
    }
    // interleave the parts
    plan.sort_by_key(|(pi, i)| (*i * 1000 / (p.parts[*pi].weight as u64), *pi));
    let plan = Arc::new(plan);
    let next = Arc::new(AtomicUsize::new(0));
    let threads = std::env::var("VP_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(p.threads);
    std::thread::scope(|s| {
        for _ in 0..threads {
            let plan = Arc::clone(&plan);
            let next = Arc::clone(&next);
            let stop = Arc::clone(&stop);
            let (stats, failures, hangs, known) = (&stats, &failures, &hangs, &known);
            s.spawn(move || {
                loop {
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= plan.len() {
                        return;
                    }
                    let (pi, i) = plan[k];
                    let tape = gen_tape(p.id, p.parts[pi].name, seed, i, p.tape_len);
                    if std::env::var_os("VP_TRACE").is_some() {
                        eprintln!("case {} {}", p.parts[pi].name, i);
                    }
                    let r = run_case(p.parts[pi].run, &tape);
                    record(p, pi, &tape, &r, stats, known, failures, hangs, i, &stop);
                }
            });
        }
    });

    // 4. Verdict.
    let mut code = 0;
    let mut fails = failures.lock().unwrap();
    fails.sort_by_key(|f| (f.part, f.index));
    if let Some(f) = fails.first() {
        let budget = Duration::from_secs(if thorough { 180 } else { 60 });
        let no_shrink = std::env::var_os("VP_NOSHRINK").is_some();
        let (tape, res, runs) = if no_shrink {
            (f.tape.clone(), f.res.clone(), 0)
        } else {
            shrink(p.parts[f.part].run, f.tape.clone(), f.res.clone(), budget, 600)
        };
        if let Res::Fail { sig, msg, desc } = &res {
            let path = save_replay(root, p.id, p.parts[f.part].name, &tape, sig, msg, desc);
            println!("--- {} / {} failed (case {}, shrunk to {} entries in {} runs)", p.id, p.parts[f.part].name, f.index, tape.len(), runs);
            println!("signature: {sig}\n{msg}\n{desc}");
            println!("VIOLATION property={} replay={}", p.id, path.display());
            violation_out = Some((sig.clone(), path.display().to_string()));
            code = 1;
        }
    }
    let hs = hangs.lock().unwrap();
    if code == 0 && !hs.is_empty() {
        // A hang is only believed when the same case hangs again, twice, running alone.
        let mut again = 0;
        let h = &hs[0];
        for i in 0..4 {
            if let Res::Hang { .. } = run_case(p.parts[h.part].run, &h.tape) {
                again += 1;
            }
            if again == 2 || (i == 1 && again == 0 && thorough) {
                break;
            }
        }
        let desc = match &h.res { Res::Hang { desc, .. } => desc.clone(), _ => String::new() };
        if again == 2 && p.hang_is_violation {
            let path = save_replay(root, p.id, p.parts[h.part].name, &h.tape, "never finishes", "the operation never finishes", &desc);
            println!("never finishes (reproduced twice, running alone): {desc}");
            println!("VIOLATION property={} replay={}", p.id, path.display());
            violation_out = Some(("never finishes".into(), path.display().to_string()));
            code = 1;
        } else if again == 2 {
            println!("ERROR property={} a case does not finish: {desc}", p.id);
            code = 2;
        } else {
            println!("note: {} case(s) exceeded the watchdog and did not do so twice when rerun alone; counted as inconclusive", hs.len());
        }
    }
    let st = stats.lock().unwrap();
    for (k, n) in &st.known_hits {
        println!("note: {n} generated case(s) hit the known finding with signature {k}");
    }
    if code == 0 && st.nontrivial.is_empty() && scale >= 1.0 {
        println!("ERROR property={} no non-trivial case was generated", p.id);
        code = 2;
    }
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": p.rule,
            "samples": st.samples,
            "cases_per_part": st.per_part,
            "classes": st.classes,
            "discarded": st.discards,
            "saved_inputs_replayed": corpus_n,
            "known_finding_hits": st.known_hits,
            "inconclusive": st.inconclusive,
        },
        "assumptions": p.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": if violation_out.is_some() { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(root.join("evidence"));
    std::fs::write(root.join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} discarded, {:.1}s",
        p.id,
        if code == 0 { "held" } else { "FAILED" },
        st.evals,
        st.nontrivial.len(),
        st.discards.values().sum::<usize>(),
        started.elapsed().as_secs_f64()
    );
    code
}

#[allow(clippy::too_many_arguments)]
fn record(
    p: &Property,
    part: usize,
    tape: &[u32],
    r: &Res,
    stats: &Mutex<Stats>,
    known: &[Known],
    failures: &Mutex<Vec<Failure>>,
    hangs: &Mutex<Vec<Failure>>,
    index: u64,
    stop: &AtomicBool,
) {
    let mut st = stats.lock().unwrap();
    st.evals += 1;
    *st.per_part.entry(p.parts[part].name.to_string()).or_default() += 1;
    match r {
        Res::Ok(info) => {
            for c in &info.classes {
                *st.classes.entry(c.clone()).or_default() += 1;
            }
            if info.nontrivial {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (part, &info.desc).hash(&mut h);
                let new = st.nontrivial.insert(h.finish());
                if new && st.samples.iter().filter(|s| s["part"] == p.parts[part].name).count() < 4 {
                    let d: String = info.desc.chars().take(1500).collect();
                    st.samples.push(json!({"part": p.parts[part].name, "case": d}));
                }
            }
        }
        Res::Discard(why) => *st.discards.entry(why.clone()).or_default() += 1,
        Res::Fail { sig, .. } => {
            if known.iter().any(|k| &k.sig == sig) {
                *st.known_hits.entry(sig.clone()).or_default() += 1;
            } else {
                drop(st);
                failures.lock().unwrap().push(Failure { part, index, tape: tape.to_vec(), res: r.clone() });
                if std::env::var_os("VP_KEEP_GOING").is_none() {
                    stop.store(true, Ordering::Relaxed);
                } else if let Res::Fail { sig, msg, desc } = r {
                    println!("=== FAIL {} {} #{index}\n{sig}\n{msg}\n{desc}", p.id, p.parts[part].name);
                }
            }
        }
        Res::Hang { desc, .. } => {
            st.inconclusive.push(desc.chars().take(400).collect());
            if std::env::var_os("VP_KEEP_GOING").is_some() {
                println!("=== HANG {} {} #{index}", p.id, p.parts[part].name);
            }
            drop(st);
            let mut h = hangs.lock().unwrap();
            h.push(Failure { part, index, tape: tape.to_vec(), res: r.clone() });
            if h.len() >= 3 && std::env::var_os("VP_KEEP_GOING").is_none() {
                stop.store(true, Ordering::Relaxed);
            }
        }
    }
}

/// CPU time used by this process so far.
pub fn cpu_time() -> Duration {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ticks = f.get(11).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    Duration::from_millis(ticks * 10)
}

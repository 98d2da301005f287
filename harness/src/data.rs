//! Generated tables and canonical row comparison.
use crate::scan::{Demand, StatsMode, next_table_id, register};
use datafusion::arrow::array::*;
use datafusion::arrow::compute::{SortColumn, SortOptions, lexsort_to_indices, take_record_batch};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::arrow::util::display::{ArrayFormatter, FormatOptions};
use datafusion::common::{DataFusionError, Result};
use datafusion::execution::TaskContext;
use std::collections::HashMap;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq)]
pub struct Exec {
    pub node: i32,
    pub task: usize,
    pub tasks: usize,
    pub partition: usize,
    pub chunks: Vec<usize>,
}

pub type Obs = Box<dyn Fn(&Arc<TaskContext>) + Send + Sync>;

pub type ExecFault = Arc<dyn Fn(usize, usize) -> Result<()> + Send + Sync>;

/// What a scan does when it reaches (chunk, batch).
#[derive(Clone)]
pub enum Fault {
    Error(Arc<dyn Fn() -> DataFusionError + Send + Sync>),
    Panic(String),
    /// never becomes ready until the gate opens
    Gate(Arc<tokio::sync::Semaphore>),
    SleepMs(u64),
    Call(Arc<dyn Fn() + Send + Sync>),
}

pub struct TableData {
    pub id: u64,
    pub name: String,
    pub schema: SchemaRef,
    pub chunks: Vec<Vec<RecordBatch>>,
    pub ordering: Vec<(usize, SortOptions)>,
    pub stats: StatsMode,
    pub demand: Demand,
    /// scaled by task context instead of by per-task variants
    pub ctx_mode: bool,
    /// yield to the scheduler before every n-th batch (0 = never)
    pub yield_every: usize,
    pub faults: Mutex<HashMap<(usize, usize), Fault>>,
    pub execs: Mutex<Vec<Exec>>,
    pub scaled: Mutex<Vec<usize>>,
    pub live: Arc<AtomicIsize>,
    pub rows_emitted: AtomicUsize,
    pub steps: AtomicUsize,
    pub faults_hit: AtomicUsize,
    pub on_execute: Mutex<Option<Obs>>,
    /// called with (task, partition) when a partition is executed
    pub exec_fault: Mutex<Option<ExecFault>>,
    /// called when the scan is decoded
    pub decode_fault: Mutex<Option<Arc<dyn Fn() -> Result<()> + Send + Sync>>>,
}

impl std::fmt::Debug for TableData {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TableData({})", self.name)
    }
}

pub struct LiveGuard(Arc<AtomicIsize>);
impl Drop for LiveGuard {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

impl TableData {
    pub fn new(name: &str, schema: SchemaRef, chunks: Vec<Vec<RecordBatch>>) -> Self {
        Self {
            id: next_table_id(),
            name: name.to_string(),
            schema,
            chunks,
            ordering: vec![],
            stats: StatsMode::Absent,
            demand: Demand::Unspecified,
            ctx_mode: false,
            yield_every: 0,
            faults: Default::default(),
            execs: Default::default(),
            scaled: Default::default(),
            live: Default::default(),
            rows_emitted: Default::default(),
            steps: Default::default(),
            faults_hit: Default::default(),
            on_execute: Default::default(),
            exec_fault: Default::default(),
            decode_fault: Default::default(),
        }
    }
    pub fn build(self) -> Arc<Self> {
        let t = Arc::new(self);
        register(&t);
        t
    }
    pub fn chunk_rows(&self, c: usize) -> usize {
        self.chunks.get(c).map(|b| b.iter().map(|b| b.num_rows()).sum()).unwrap_or(0)
    }
    pub fn total_rows(&self) -> usize {
        (0..self.chunks.len()).map(|c| self.chunk_rows(c)).sum()
    }
    pub fn note_exec(&self, node: i32, task: usize, tasks: usize, partition: usize, chunks: &[usize]) {
        self.execs.lock().unwrap().push(Exec { node, task, tasks, partition, chunks: chunks.to_vec() });
    }
    pub fn note_rows(&self, n: usize) {
        self.rows_emitted.fetch_add(n, Ordering::SeqCst);
    }
    pub fn live_guard(&self) -> Arc<LiveGuard> {
        self.live.fetch_add(1, Ordering::SeqCst);
        Arc::new(LiveGuard(Arc::clone(&self.live)))
    }
    pub async fn step(&self, c: usize, b: usize) -> Result<()> {
        let n = self.steps.fetch_add(1, Ordering::SeqCst);
        if self.yield_every > 0 && n % self.yield_every == 0 {
            tokio::task::yield_now().await;
        }
        let f = self.faults.lock().unwrap().get(&(c, b)).cloned();
        match f {
            None => Ok(()),
            Some(f) => {
                self.faults_hit.fetch_add(1, Ordering::SeqCst);
                match f {
                    Fault::Error(e) => Err(e()),
                    Fault::Panic(m) => panic!("{m}"),
                    Fault::Call(f) => {
                        f();
                        tokio::task::yield_now().await;
                        Ok(())
                    }
                    Fault::Gate(s) => {
                        let p = s.acquire().await;
                        drop(p);
                        Ok(())
                    }
                    Fault::SleepMs(ms) => {
                        tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
                        Ok(())
                    }
                }
            }
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Ty {
    Int,
    Int32,
    Str,
    Float,
    Date,
    Bool,
}

impl Ty {
    pub fn dt(&self) -> DataType {
        match self {
            Ty::Int => DataType::Int64,
            Ty::Int32 => DataType::Int32,
            Ty::Str => DataType::Utf8,
            Ty::Float => DataType::Float64,
            Ty::Date => DataType::Date32,
            Ty::Bool => DataType::Boolean,
        }
    }
}

/// Column generator parameters: value domain size and null rate (x/10).
#[derive(Debug, Clone)]
pub struct ColSpec {
    pub name: String,
    pub ty: Ty,
    pub domain: usize,
    pub nulls: usize,
}

pub const WORDS: [&str; 12] = ["", "a", "b", "ab", "abc", "B", "zz", "long string value past twelve", "q%", "x_y", "Ω", "a b"];

/// Small deterministic generator for cell values (seed 0 gives 0,1,2,...).
pub struct Cells(u64);
impl Cells {
    pub fn new(seed: u32) -> Self {
        Cells(seed as u64)
    }
    pub fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        ((z ^ (z >> 31)) >> 16) as u32
    }
}

fn gen_col(t: &mut Cells, c: &ColSpec, n: usize) -> ArrayRef {
    let mut null = vec![false; n];
    let mut val = vec![0usize; n];
    for i in 0..n {
        let r = t.next() as usize;
        null[i] = c.nulls > 0 && (r / 7919) % 10 < c.nulls;
        val[i] = r % c.domain.max(1);
    }
    macro_rules! col {
        ($arr:ty, $f:expr) => {
            Arc::new((0..n).map(|i| if null[i] { None } else { Some($f(val[i])) }).collect::<$arr>()) as ArrayRef
        };
    }
    match c.ty {
        Ty::Int => col!(Int64Array, |v: usize| v as i64 - (c.domain / 4) as i64),
        Ty::Int32 => col!(Int32Array, |v: usize| v as i32),
        Ty::Str => Arc::new(
            (0..n)
                .map(|i| if null[i] { None } else if val[i] < WORDS.len() { Some(WORDS[val[i]].to_string()) } else { Some(format!("w{}", val[i])) })
                .collect::<StringArray>(),
        ),
        Ty::Float => col!(Float64Array, |v: usize| (v as f64 - 3.0) * 0.5),
        Ty::Date => col!(Date32Array, |v: usize| 18000 + v as i32 * 13),
        Ty::Bool => col!(BooleanArray, |v: usize| v % 2 == 0),
    }
}

pub fn schema_of(cols: &[ColSpec]) -> SchemaRef {
    Arc::new(Schema::new(cols.iter().map(|c| Field::new(&c.name, c.ty.dt(), true)).collect::<Vec<_>>()))
}

pub fn gen_batch(seed: u32, cols: &[ColSpec], rows: usize) -> RecordBatch {
    let t = &mut Cells::new(seed);
    let arrays = cols.iter().map(|c| gen_col(t, c, rows)).collect();
    RecordBatch::try_new_with_options(schema_of(cols), arrays, &RecordBatchOptions::new().with_row_count(Some(rows))).unwrap()
}

pub fn sort_batch(b: &RecordBatch, by: &[(usize, SortOptions)]) -> RecordBatch {
    let cols: Vec<SortColumn> = by.iter().map(|(i, o)| SortColumn { values: Arc::clone(b.column(*i)), options: Some(*o) }).collect();
    if b.num_rows() == 0 {
        return b.clone();
    }
    let idx = lexsort_to_indices(&cols, None).unwrap();
    take_record_batch(b, &idx).unwrap()
}

/// Splits a batch in pieces of the given maximum size (at least one piece, possibly empty).
pub fn split_batch(b: &RecordBatch, size: usize) -> Vec<RecordBatch> {
    let size = size.max(1);
    let mut out = vec![];
    let mut o = 0;
    while o < b.num_rows() {
        let l = size.min(b.num_rows() - o);
        out.push(b.slice(o, l));
        o += l;
    }
    out
}

/// Canonical text of every row, in order.
pub fn rows(batches: &[RecordBatch]) -> Vec<String> {
    let opts = FormatOptions::default().with_null("∅");
    let mut out = vec![];
    for b in batches {
        let fmts: Vec<_> = b.columns().iter().map(|c| ArrayFormatter::try_new(c.as_ref(), &opts).unwrap()).collect();
        for r in 0..b.num_rows() {
            let mut s = String::new();
            for f in &fmts {
                use std::fmt::Write;
                let _ = write!(s, "{}¦", f.value(r));
            }
            out.push(s);
        }
    }
    out
}

pub fn cols_rows(batches: &[RecordBatch], cols: &[usize]) -> Vec<String> {
    let p: Vec<RecordBatch> = batches.iter().map(|b| b.project(cols).unwrap()).collect();
    rows(&p)
}

pub fn multiset(v: &[String]) -> std::collections::BTreeMap<&str, usize> {
    let mut m = std::collections::BTreeMap::new();
    for x in v {
        *m.entry(x.as_str()).or_insert(0) += 1;
    }
    m
}

/// None when equal as multisets, otherwise a short description of the difference.
pub fn diff_multiset(got: &[String], want: &[String]) -> Option<String> {
    let (g, w) = (multiset(got), multiset(want));
    if g == w {
        return None;
    }
    let mut extra = vec![];
    let mut missing = vec![];
    for (k, n) in &g {
        let m = w.get(k).copied().unwrap_or(0);
        if *n > m {
            extra.push(format!("{}x {k}", n - m));
        }
    }
    for (k, n) in &w {
        let m = g.get(k).copied().unwrap_or(0);
        if *n > m {
            missing.push(format!("{}x {k}", n - m));
        }
    }
    Some(format!(
        "got {} rows, want {} rows; unexpected: {:?}; missing: {:?}",
        got.len(),
        want.len(),
        &extra[..extra.len().min(6)],
        &missing[..missing.len().min(6)]
    ))
}

/// Is `got` a sub-multiset of `all`?
pub fn submultiset(got: &[String], all: &[String]) -> Option<String> {
    let (g, w) = (multiset(got), multiset(all));
    for (k, n) in &g {
        if *n > w.get(k).copied().unwrap_or(0) {
            return Some(format!("{k} appears {n} times, at most {} allowed", w.get(k).copied().unwrap_or(0)));
        }
    }
    None
}

pub fn schema_sig(s: &Schema) -> String {
    s.fields().iter().map(|f| format!("{}:{}", f.name(), f.data_type())).collect::<Vec<_>>().join(",")
}

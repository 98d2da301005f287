//! C07: splitting a scan over tasks reads every row exactly once.
use super::qcase::{boundaries, panicked};
use crate::cluster::*;
use crate::data::*;
use crate::oracle::{Answer, run, run_plan};
use crate::place::{err_sig, fail, guard};
use crate::runner::{Info, Part, Property, Res};
use crate::scan::VScan;
use crate::tape::Tape;
use datafusion::arrow::array::{ArrayRef, Int64Array, StringArray};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::Result;
use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
use datafusion::datasource::MemTable;
use datafusion::datasource::file_format::FileFormat;
use datafusion::datasource::file_format::arrow::ArrowFormat;
use datafusion::datasource::file_format::csv::CsvFormat;
use datafusion::datasource::file_format::json::JsonFormat;
use datafusion::datasource::file_format::parquet::ParquetFormat;
use datafusion::datasource::listing::{ListingOptions, ListingTable, ListingTableConfig, ListingTableUrl, PartitionedFile};
use datafusion::datasource::physical_plan::{FileGroup, FileScanConfig, FileScanConfigBuilder, ParquetSource};
use datafusion::datasource::source::DataSourceExec;
use datafusion::execution::object_store::ObjectStoreUrl;
use datafusion::execution::runtime_env::RuntimeEnv;
use datafusion::physical_expr::{LexOrdering, PhysicalSortExpr};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
use datafusion::physical_plan::{ExecutionPlan, Partitioning, ExecutionPlanProperties};
use datafusion::prelude::{SessionConfig, SessionContext, col};
use datafusion_distributed::{DistributedLeafExec, NetworkCoalesceExec, display_plan_ascii};
use futures::FutureExt;
use object_store::memory::InMemory;
use object_store::path::Path as OPath;
use object_store::{ObjectStore, ObjectStoreExt};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fmt {
    Parquet,
    Csv,
    Json,
    /// CSV with line breaks inside values, which must not be cut into byte ranges
    CsvLines,
    Arrow,
}

/// One file: partition value and rows (id, k, s).
#[derive(Clone, Debug)]
struct FileSpec {
    p: Option<usize>,
    ids: Vec<i64>,
}

#[derive(Clone, Debug)]
struct Files {
    name: String,
    fmt: Fmt,
    files: Vec<FileSpec>,
    sorted: bool,
    row_group: usize,
    part_col: bool,
}

fn k_of(id: i64) -> Option<i64> {
    if id % 7 == 3 { None } else { Some((id * 2654435761) % 5) }
}
fn s_of(id: i64, lines: bool) -> String {
    if lines && id % 3 != 0 {
        return format!("a{}\n{},{},b", "x".repeat((id % 13) as usize), id, id % 4);
    }
    format!("s{}", "x".repeat((id % 13) as usize))
}

fn file_schema() -> SchemaRef {
    Arc::new(Schema::new(vec![
        Field::new("id", DataType::Int64, true),
        Field::new("k", DataType::Int64, true),
        Field::new("s", DataType::Utf8, true),
    ]))
}

fn batch(ids: &[i64], lines: bool) -> RecordBatch {
    let cols: Vec<ArrayRef> = vec![
        Arc::new(Int64Array::from(ids.to_vec())),
        Arc::new(ids.iter().map(|i| k_of(*i)).collect::<Int64Array>()),
        Arc::new(ids.iter().map(|i| Some(s_of(*i, lines))).collect::<StringArray>()),
    ];
    RecordBatch::try_new(file_schema(), cols).unwrap()
}

fn encode(fmt: Fmt, row_group: usize, b: &RecordBatch) -> Vec<u8> {
    let mut out = vec![];
    match fmt {
        Fmt::Parquet => {
            let props = parquet::file::properties::WriterProperties::builder().set_max_row_group_row_count(Some(row_group)).build();
            let mut w = parquet::arrow::ArrowWriter::try_new(&mut out, b.schema(), Some(props)).unwrap();
            w.write(b).unwrap();
            w.close().unwrap();
        }
        Fmt::Arrow => {
            let mut w = arrow_ipc::writer::FileWriter::try_new(&mut out, &b.schema()).unwrap();
            for i in (0..b.num_rows()).step_by(row_group) {
                w.write(&b.slice(i, row_group.min(b.num_rows() - i))).unwrap();
            }
            w.finish().unwrap();
        }
        Fmt::Csv | Fmt::CsvLines => {
            let mut w = arrow::csv::WriterBuilder::new().with_header(false).build(&mut out);
            w.write(b).unwrap();
        }
        Fmt::Json => {
            let mut w = arrow::json::LineDelimitedWriter::new(&mut out);
            w.write(b).unwrap();
            w.finish().unwrap();
        }
    }
    out
}

impl Files {
    fn generate(t: &mut Tape, name: &str, fmts: bool) -> Self {
        let fmt = if fmts { [Fmt::Parquet, Fmt::Csv, Fmt::Json, Fmt::CsvLines, Fmt::Arrow][t.weighted(&[4, 2, 1, 1, 1])] } else { Fmt::Parquet };
        let n = [1, 2, 3, 5, 8, 14][t.weighted(&[3, 3, 3, 2, 1, 1])];
        let part_col = t.chance(1, 3);
        let keys = t.range(1, 4);
        let sorted = t.chance(1, 3);
        let mut next = 0i64;
        let mut files = vec![];
        for _ in 0..n {
            let rows = if t.chance(1, 12) { 0 } else { t.size(120) };
            let p = part_col.then(|| t.below(keys));
            // sorted files may interleave their ids
            let step = if sorted { 1 + t.below(3) as i64 } else { 1 };
            let mut ids = vec![];
            for _ in 0..rows {
                ids.push(next);
                next += step;
            }
            if !sorted {
                t.shuffle(&mut ids);
            }
            files.push(FileSpec { p, ids });
        }
        if sorted && t.bool() {
            // deal the ids over the files
            let mut all: Vec<i64> = files.iter().flat_map(|f| f.ids.clone()).collect();
            all.sort();
            let mut r = vec![vec![]; n];
            for (i, id) in all.into_iter().enumerate() {
                r[i % n].push(id);
            }
            for (f, ids) in files.iter_mut().zip(r) {
                f.ids = ids;
            }
        }
        Files { name: name.into(), fmt, files, sorted, row_group: [1000, 1, 5, 20][t.weighted(&[3, 1, 2, 2])], part_col }
    }

    fn path(&self, i: usize) -> String {
        let ext = match self.fmt {
            Fmt::Parquet => "parquet",
            Fmt::Csv | Fmt::CsvLines => "csv",
            Fmt::Json => "json",
            Fmt::Arrow => "arrow",
        };
        match self.files[i].p {
            Some(p) => format!("{}/p=v{p}/f{i}.{ext}", self.name),
            None => format!("{}/f{i}.{ext}", self.name),
        }
    }

    async fn write(&self, store: &InMemory) -> Vec<(String, u64)> {
        let mut out = vec![];
        for (i, f) in self.files.iter().enumerate() {
            let data = encode(self.fmt, self.row_group, &batch(&f.ids, self.fmt == Fmt::CsvLines));
            let path = self.path(i);
            out.push((path.clone(), data.len() as u64));
            store.put(&OPath::from(path), data.into()).await.unwrap();
        }
        out
    }

    fn listing(&self, state: &dyn datafusion::catalog::Session) -> Result<Arc<ListingTable>> {
        let format: Arc<dyn FileFormat> = match self.fmt {
            Fmt::Parquet => Arc::new(ParquetFormat::new()),
            Fmt::Csv => Arc::new(CsvFormat::default().with_has_header(false)),
            Fmt::CsvLines => Arc::new(CsvFormat::default().with_has_header(false).with_newlines_in_values(true)),
            Fmt::Json => Arc::new(JsonFormat::default()),
            Fmt::Arrow => Arc::new(ArrowFormat),
        };
        let ext = match self.fmt {
            Fmt::Parquet => ".parquet",
            Fmt::Csv | Fmt::CsvLines => ".csv",
            Fmt::Json => ".json",
            Fmt::Arrow => ".arrow",
        };
        let mut o = ListingOptions::new(format).with_file_extension(ext);
        if self.part_col {
            o = o.with_table_partition_cols(vec![("p".into(), DataType::Utf8)]);
        }
        if self.sorted {
            o = o.with_file_sort_order(vec![vec![col("id").sort(true, false)]]);
        }
        let _ = state;
        let url = ListingTableUrl::parse(format!("mem://files/{}/", self.name))?;
        Ok(Arc::new(ListingTable::try_new(ListingTableConfig::new(url).with_listing_options(o).with_schema(file_schema()))?))
    }

    /// The rows as one in-memory table.
    fn mem(&self) -> Arc<MemTable> {
        let mut fields: Vec<Field> = file_schema().fields().iter().map(|f| f.as_ref().clone()).collect();
        if self.part_col {
            fields.push(Field::new("p", DataType::Utf8, true));
        }
        let schema = Arc::new(Schema::new(fields));
        let mut out = vec![];
        for f in &self.files {
            let b = batch(&f.ids, self.fmt == Fmt::CsvLines);
            let mut cols = b.columns().to_vec();
            if let Some(p) = f.p {
                cols.push(Arc::new(StringArray::from(vec![format!("v{p}"); f.ids.len()])));
            }
            out.push(RecordBatch::try_new(Arc::clone(&schema), cols).unwrap());
        }
        Arc::new(MemTable::try_new(schema, vec![out]).unwrap())
    }

    fn describe(&self) -> String {
        format!(
            "{}: {:?} row_group={} sorted={} files={:?}",
            self.name,
            self.fmt,
            self.row_group,
            self.sorted,
            self.files.iter().map(|f| (f.p, f.ids.len())).collect::<Vec<_>>()
        )
    }
}

fn register_store(rt: &RuntimeEnv, store: &Arc<InMemory>) {
    rt.register_object_store(&url::Url::parse("mem://files").unwrap(), Arc::clone(store) as Arc<dyn ObjectStore>);
}

/// (sql, sequence matters)
fn query(t: &mut Tape, a: &Files, two: Option<bool>) -> (String, bool) {
    let n = t.below(30);
    let m = t.below(10);
    let mut menu: Vec<(usize, String, bool)> = vec![
        (4, "SELECT * FROM t0".into(), false),
        (3, "SELECT * FROM t0 ORDER BY id".into(), true),
        (2, "SELECT id, k FROM t0 ORDER BY id".into(), true),
        (2, format!("SELECT id, k FROM t0 ORDER BY id DESC LIMIT {n} OFFSET {m}"), true),
        (2, "SELECT k, count(*), sum(id), min(s) FROM t0 GROUP BY k".into(), false),
        (1, "SELECT count(*), min(id), max(id) FROM t0".into(), false),
        (1, format!("SELECT id, s FROM t0 WHERE id >= {} AND k < 3", n * 3), false),
        (1, "SELECT id, row_number() OVER (PARTITION BY k ORDER BY id) FROM t0".into(), false),
        (1, "SELECT id, count(*) FROM t0 GROUP BY id".into(), false),
        (1, "SELECT id FROM t0 UNION ALL SELECT id FROM t0".into(), false),
    ];
    if a.part_col {
        menu.push((3, "SELECT p, count(*), sum(id) FROM t0 GROUP BY p".into(), false));
        menu.push((2, "SELECT p, k, count(*) FROM t0 GROUP BY p, k".into(), false));
        menu.push((1, "SELECT a.id, b.id FROM t0 a JOIN t0 b ON a.p = b.p AND a.id = b.id".into(), false));
        menu.push((1, "SELECT p, id, rank() OVER (PARTITION BY p ORDER BY id) FROM t0".into(), false));
        menu.push((1, "SELECT id FROM t0 WHERE p <> 'v0'".into(), false));
        menu.push((1, "SELECT a.id, c FROM t0 a JOIN (SELECT p, count(*) c FROM t0 GROUP BY p) b ON a.p = b.p".into(), false));
        if two == Some(true) {
            menu.push((4, "SELECT a.id, b.id FROM t0 a JOIN t1 b ON a.p = b.p".into(), false));
            menu.push((2, "SELECT a.p, count(*) FROM t0 a LEFT JOIN t1 b ON a.p = b.p GROUP BY a.p".into(), false));
            menu.push((1, "SELECT a.id FROM t0 a WHERE a.p NOT IN (SELECT p FROM t1 WHERE k = 1)".into(), false));
            menu.push((1, "SELECT p, sum(id) FROM (SELECT p, id FROM t0 UNION ALL SELECT p, id FROM t1) GROUP BY p".into(), false));
        }
    }
    if two.is_some() {
        menu.push((3, "SELECT a.id, b.id FROM t0 a JOIN t1 b ON a.id = b.id".into(), false));
        menu.push((2, "SELECT a.k, count(*) FROM t0 a JOIN t1 b ON a.id = b.k GROUP BY a.k".into(), false));
        menu.push((2, "SELECT id FROM t0 UNION ALL SELECT id FROM t1".into(), false));
        menu.push((1, "SELECT id FROM t0 WHERE NOT EXISTS (SELECT 1 FROM t1 WHERE t1.id = t0.id)".into(), false));
    }
    let w: Vec<usize> = menu.iter().map(|m| m.0).collect();
    let (_, sql, seq) = menu.swap_remove(t.weighted(&w));
    (sql, seq)
}

fn file_scan(p: &Arc<dyn ExecutionPlan>) -> Option<&FileScanConfig> {
    p.downcast_ref::<DataSourceExec>()?.data_source().downcast_ref::<FileScanConfig>()
}

type Ranges = BTreeMap<String, Vec<(i64, i64)>>;

fn ranges(groups: &[FileGroup], out: &mut Ranges) {
    for f in groups.iter().flat_map(|g| g.iter()) {
        let (a, b) = match &f.range {
            Some(r) => (r.start, r.end),
            None => (0, f.object_meta.size as i64),
        };
        if b > a {
            out.entry(f.object_meta.location.to_string()).or_default().push((a, b));
        }
    }
}

/// Adjacent ranges joined; an overlap is an error.
fn normal(r: Ranges) -> std::result::Result<Ranges, String> {
    let mut out = Ranges::new();
    for (f, mut v) in r {
        v.sort();
        let mut n: Vec<(i64, i64)> = vec![];
        for (a, b) in v {
            match n.last_mut() {
                Some(l) if a < l.1 => return Err(format!("{f}: bytes {a}..{} are read twice", l.1.min(b))),
                Some(l) if a == l.1 => l.1 = b,
                _ => n.push((a, b)),
            }
        }
        out.insert(f, n);
    }
    Ok(out)
}

/// The variants of every scaled scan cover exactly the original scan and agree with each other.
fn check_variants(plan: &Arc<dyn ExecutionPlan>) -> std::result::Result<usize, (&'static str, String)> {
    let mut n = 0;
    let mut bad = None;
    let _ = plan.apply(|p| {
        let Some(l) = p.downcast_ref::<DistributedLeafExec>() else { return Ok(TreeNodeRecursion::Continue) };
        let Some(orig) = file_scan(l.original()) else { return Ok(TreeNodeRecursion::Continue) };
        n += 1;
        let mut have = Ranges::new();
        let mut want = Ranges::new();
        ranges(&orig.file_groups, &mut want);
        let parts = l.variants()[0].output_partitioning().partition_count();
        // values which DataFusion itself keeps in one group
        let mut source: BTreeMap<String, std::collections::BTreeSet<usize>> = BTreeMap::new();
        for (g, group) in orig.file_groups.iter().enumerate() {
            for f in group.iter() {
                source.entry(format!("{:?}", f.partition_values)).or_default().insert(g);
            }
        }
        let mut home: BTreeMap<String, (usize, usize)> = BTreeMap::new();
        for (i, v) in l.variants().iter().enumerate() {
            if v.output_partitioning().partition_count() != parts || v.schema() != l.original().schema() {
                bad = Some(("variants disagree", format!("variant {i}: {} partitions, others {parts}", v.output_partitioning().partition_count())));
            }
            let Some(fs) = file_scan(v) else {
                bad = Some(("variants disagree", format!("variant {i} is a {}", v.name())));
                continue;
            };
            ranges(&fs.file_groups, &mut have);
            if matches!(v.output_partitioning(), Partitioning::Hash(..) | Partitioning::Range(_)) {
                for (g, group) in fs.file_groups.iter().enumerate() {
                    for f in group.iter() {
                        let key = format!("{:?}", f.partition_values);
                        let h = home.entry(key.clone()).or_insert((i, g));
                        if *h != (i, g) && source[&key].len() == 1 {
                            bad = Some(("partition values apart", format!("files of {key} are in task/partition {h:?} and {:?}", (i, g))));
                        }
                    }
                }
            }
        }
        match (normal(have), normal(want)) {
            (Ok(h), Ok(w)) if h == w => {}
            (Ok(h), Ok(w)) => bad = Some(("files covered", format!("read {h:?} instead of {w:?}"))),
            (Err(e), Ok(_)) => bad = Some(("files covered", e)),
            _ => {}
        }
        Ok(TreeNodeRecursion::Continue)
    });
    match bad {
        None => Ok(n),
        Some(b) => Err(b),
    }
}

fn gen_opts(t: &mut Tape, workers: usize) -> Opts {
    let mut o = Opts {
        target_partitions: [2, 3, 1, 4, 8, 16][t.weighted(&[3, 3, 2, 2, 1, 1])],
        batch_size: [8192, 2, 7, 64][t.weighted(&[4, 1, 1, 2])],
        max_tasks: [0, 2, 3, 6][t.weighted(&[6, 1, 1, 1])],
        bytes_per_partition: [100, 1, 1000, 16 * 1024 * 1024, 0][t.weighted(&[3, 2, 3, 1, 1])],
        metrics: t.bool(),
        isolator: !t.chance(1, 4),
        broadcast: !t.chance(1, 3),
        partial_reduce: t.chance(1, 4),
        local: if t.chance(1, 5) { Some(t.below(workers)) } else { None },
        dynamic: if t.chance(1, 6) { Some([1, 500, 1 << 20][t.below(3)]) } else { None },
        ..Default::default()
    };
    let mut flag = |n: usize, d: usize, k: &str, v: &str| {
        if t.chance(n, d) {
            o.df.push((k.into(), v.into()));
        }
    };
    flag(1, 2, "datafusion.optimizer.repartition_file_min_size", "0");
    flag(1, 3, "datafusion.optimizer.repartition_file_scans", "false");
    flag(1, 2, "datafusion.optimizer.preserve_file_partitions", "1");
    flag(1, 3, "datafusion.execution.collect_statistics", "false");
    flag(1, 3, "datafusion.execution.split_file_groups_by_statistics", "true");
    flag(1, 3, "datafusion.optimizer.prefer_existing_sort", "true");
    flag(1, 3, "datafusion.optimizer.enable_round_robin_repartition", "false");
    flag(1, 2, "datafusion.optimizer.hash_join_single_partition_threshold", "0");
    flag(1, 2, "datafusion.optimizer.hash_join_single_partition_threshold_rows", "0");
    flag(1, 3, "datafusion.execution.parquet.pushdown_filters", "true");
    flag(1, 3, "datafusion.optimizer.prefer_hash_join", "false");
    o
}

async fn caught<T>(f: impl std::future::Future<Output = Result<T>>) -> Result<T> {
    std::panic::AssertUnwindSafe(f).catch_unwind().await.unwrap_or_else(|p| panicked(p))
}

fn differ(got: &Answer, want: &Answer, seq: bool) -> Option<(&'static str, String)> {
    if schema_sig(&got.schema) != schema_sig(&want.schema) {
        return Some(("schema", format!("{} instead of {}", schema_sig(&got.schema), schema_sig(&want.schema))));
    }
    let (g, w) = (got.rows(), want.rows());
    if let Some(m) = diff_multiset(&g, &w) {
        return Some(("rows", m));
    }
    if seq && g != w {
        let i = g.iter().zip(&w).position(|(a, b)| a != b);
        return Some(("order", format!("row {i:?} is {:?} instead of {:?}", i.map(|i| &g[i]), i.map(|i| &w[i]))));
    }
    None
}

/// A partitioned join of a scan partitioned by its file groups with hash-partitioned rows. Single-node
/// DataFusion plans these although the two partitionings do not agree, and is right only by luck.
fn upstream_partition_mix(plan: &Arc<dyn ExecutionPlan>) -> bool {
    fn by_files(p: &Arc<dyn ExecutionPlan>) -> Option<bool> {
        if p.name() == "RepartitionExec" || p.name() == "NetworkShuffleExec" {
            return Some(false);
        }
        if p.children().is_empty() {
            return matches!(p.output_partitioning(), Partitioning::Hash(..)).then_some(true);
        }
        p.children().into_iter().find_map(by_files)
    }
    let mut found = false;
    let _ = plan.apply(|p| {
        if matches!(p.name(), "HashJoinExec" | "SortMergeJoinExec" | "SymmetricHashJoinExec") {
            let c = p.children();
            let (a, b) = (by_files(c[0]), by_files(c[1]));
            found |= a.is_some() && b.is_some() && a != b;
        }
        Ok(TreeNodeRecursion::Continue)
    });
    found
}

/// SQL over files.
fn files_case(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let threads = [0, 2][t.weighted(&[2, 1])];
    let workers = [2, 3, 4, 1, 7][t.weighted(&[4, 3, 2, 1, 1])];
    let o = gen_opts(t, workers);
    let mut tables = vec![Files::generate(t, "t0", true)];
    if t.bool() {
        tables.push(Files::generate(t, "t1", true));
    }
    let (sql, seq) = query(t, &tables[0], tables.get(1).map(|t| t.part_col));
    let desc = format!("{sql}\nworkers={workers} threads={threads} {o:?}\n{}", tables.iter().map(|t| t.describe()).collect::<Vec<_>>().join("\n"));
    let d = desc.clone();
    guard(threads, &desc, async move {
        let store = Arc::new(InMemory::new());
        for t in &tables {
            t.write(&store).await;
        }
        let reference = SessionContext::new_with_config(SessionConfig::new().with_target_partitions(1));
        for t in &tables {
            reference.register_table(t.name.as_str(), t.mem()).unwrap();
        }
        let (want, _) = match run(&reference, &sql).await {
            Ok(x) => x,
            Err(e) => return Res::Discard(format!("reference: {e}")),
        };
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        register_store(&cluster.coord_rt, &store);
        for n in &cluster.nodes {
            register_store(&n.runtime, &store);
        }
        let ctx = cluster.session(&o);
        for t in &tables {
            let l = t.listing(&ctx.state()).unwrap();
            ctx.register_table(t.name.as_str(), l).unwrap();
        }
        let mut planned = None;
        let got = caught(async {
            let plan = ctx.sql(&sql).await?.create_physical_plan().await?;
            planned = Some(Arc::clone(&plan));
            run_plan(&ctx, &plan).await
        })
        .await;
        let d = match &planned {
            Some(p) => format!("{d}\n{}", display_plan_ascii(p.as_ref(), false)),
            None => d,
        };
        let mut scaled = 0;
        if let Some(p) = &planned {
            match check_variants(p) {
                Ok(n) => scaled = n,
                Err((s, m)) => return fail(s, m, &d),
            }
        }
        let failure = match &got {
            Ok(a) => differ(a, &want, seq).map(|(s, m)| (format!("mismatch:{s}"), m)),
            Err(e) => Some((err_sig(e), e.to_string())),
        };
        if let Some((sig, msg)) = failure {
            if sig.starts_with("mismatch") && planned.as_ref().is_some_and(upstream_partition_mix) {
                return Res::Discard("upstream: file groups joined with hash partitions".into());
            }
            // is single-node DataFusion right about these files with these options?
            let like = SessionContext::new_with_config(o.df_config());
            register_store(&like.runtime_env(), &store);
            for t in &tables {
                let l = t.listing(&like.state()).unwrap();
                like.register_table(t.name.as_str(), l).unwrap();
            }
            return match caught(run(&like, &sql)).await {
                Ok((a, _)) if differ(&a, &want, seq).is_some() => Res::Discard("single-node DataFusion disagrees with itself".into()),
                Ok(_) => fail(&sig, msg, &d),
                Err(e) => Res::Discard(format!("single-node: {e}")),
            };
        }
        let multi = planned.as_ref().is_some_and(|p| boundaries(p).iter().any(|b| b.1 > 1));
        let mut info = Info { nontrivial: multi || o.dynamic.is_some() && cluster.shared.setplans.load(std::sync::atomic::Ordering::SeqCst) > 1, desc: d, ..Default::default() };
        for t in &tables {
            info.class(format!("{:?}", t.fmt));
            if t.part_col {
                info.class("partition column");
            }
            if t.sorted {
                info.class("declared order");
            }
        }
        if scaled > 0 {
            info.class("scaled scans");
        }
        Res::Ok(info)
    })
}

/// Hand-made file scans (any groups, any ranges) under a user-placed boundary.
fn groups_case(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let workers = t.range(1, 4);
    let tasks = [2, 3, 1, 4, 5][t.weighted(&[4, 3, 1, 2, 1])];
    let mut o = gen_opts(t, workers);
    o.dynamic = None;
    o.max_tasks = 0;
    let mut f = Files::generate(t, "t0", false);
    f.part_col = false;
    for x in f.files.iter_mut() {
        x.p = None;
    }
    let seeds: Vec<u32> = (0..60).map(|_| t.raw()).collect();
    let desc = format!("tasks={tasks} workers={workers} {o:?}\n{}", f.describe());
    guard(0, &desc.clone(), async move {
        let t = &mut Tape::new(&seeds);
        let store = Arc::new(InMemory::new());
        let written = f.write(&store).await;
        // pieces of files, in file order
        let mut pieces = vec![];
        for (path, size) in &written {
            let mut cuts = vec![0, *size as i64];
            let ranged = t.chance(1, 3);
            if ranged {
                for _ in 0..t.range(0, 2) {
                    cuts.push(t.below(*size as usize + 1) as i64);
                }
            }
            cuts.sort();
            for w in cuts.windows(2) {
                let mut p = PartitionedFile::new(path.clone(), *size);
                if ranged {
                    p = p.with_range(w[0], w[1]);
                }
                pieces.push(p);
            }
        }
        let ngroups = t.range(1, 5);
        let mut groups: Vec<Vec<PartitionedFile>> = vec![vec![]; ngroups];
        // sorted files follow each other in a group only when their ids do
        let disjoint = f.files.iter().filter(|f| !f.ids.is_empty()).collect::<Vec<_>>().windows(2).all(|w| w[0].ids.last() <= w[1].ids.first());
        for (i, p) in pieces.into_iter().enumerate() {
            let g = if f.sorted && !disjoint { i } else { t.below(ngroups) };
            if g >= groups.len() {
                groups.push(vec![]);
            }
            groups[g].push(p);
        }
        let shape = groups.iter().map(|g| g.iter().map(|f| f.range.as_ref().map(|r| (r.start, r.end))).collect::<Vec<_>>()).collect::<Vec<_>>();
        let source = Arc::new(ParquetSource::new(file_schema()));
        let mut b = FileScanConfigBuilder::new(ObjectStoreUrl::parse("mem://files").unwrap(), source).with_file_groups(groups.into_iter().map(FileGroup::new).collect());
        if f.sorted {
            let e = PhysicalSortExpr { expr: datafusion::physical_expr::expressions::col("id", &file_schema()).unwrap(), options: datafusion::arrow::compute::SortOptions { descending: false, nulls_first: false } };
            b = b.with_output_ordering(vec![LexOrdering::new(vec![e]).unwrap()]);
        }
        let scan: Arc<dyn ExecutionPlan> = DataSourceExec::from_data_source(b.build());
        // an executed scan keeps the state of its execution, so the reference gets its own instance
        let fresh = datafusion::physical_plan::execution_plan::reset_plan_states(Arc::clone(&scan)).unwrap();
        let order = scan.output_ordering().cloned();
        let d = format!("{desc}\ngroups: {shape:?}");
        let like = SessionContext::new_with_config(o.df_config());
        register_store(&like.runtime_env(), &store);
        let want = match run_plan(&like, &(Arc::new(CoalescePartitionsExec::new(fresh)) as _)).await {
            Ok(w) => w,
            Err(e) => return Res::Discard(format!("single-node: {e}")),
        };
        let n = NetworkCoalesceExec::try_new(scan, tasks, 1).unwrap();
        let plan: Arc<dyn ExecutionPlan> = match &order {
            Some(o) => Arc::new(SortPreservingMergeExec::new(o.clone(), Arc::new(n))),
            None => Arc::new(CoalescePartitionsExec::new(Arc::new(n))),
        };
        let cluster = Cluster::start(ClusterCfg { workers, ..Default::default() });
        register_store(&cluster.coord_rt, &store);
        for n in &cluster.nodes {
            register_store(&n.runtime, &store);
        }
        let (got, plan) = match crate::place::run_placed(&cluster, &o, plan).await {
            Ok(x) => x,
            Err(e) => return fail(&err_sig(&e), format!("failed: {e}"), &d),
        };
        let d = format!("{d}\n{}", display_plan_ascii(plan.as_ref(), false));
        if let Err((s, m)) = check_variants(&plan) {
            return fail(s, m, &d);
        }
        if let Some((s, m)) = differ(&got, &want, false) {
            return fail(&format!("mismatch:{s}"), m, &d);
        }
        if order.is_some() {
            let ids = cols_rows(&got.batches, &[0]);
            let v: Vec<i64> = ids.iter().map(|s| s.trim_end_matches('¦').parse().unwrap()).collect();
            if let Some(i) = v.windows(2).position(|w| w[0] > w[1]) {
                return fail("mismatch:order", format!("row {} is {} after {}", i + 1, v[i + 1], v[i]), &d);
            }
        }
        let mut info = Info { nontrivial: tasks > 1 && got.n() > 1, desc: d, ..Default::default() };
        if order.is_some() {
            info.class("declared order");
        }
        Res::Ok(info)
    })
}

/// Hand-made variants are accepted exactly when they agree.
fn handmade(tape: &[u32]) -> Res {
    let t = &mut Tape::new(tape);
    let table = |t: &mut Tape, cols: usize| {
        let specs: Vec<ColSpec> = (0..cols).map(|i| ColSpec { name: format!("c{i}"), ty: [Ty::Int, Ty::Str][t.weighted(&[4, 1])], domain: 3, nulls: 0 }).collect();
        TableData::new("h", schema_of(&specs), vec![vec![]]).build()
    };
    let base = table(t, 2);
    let n = t.below(6);
    let usual = t.range(1, 3);
    let mut variants: Vec<Arc<dyn ExecutionPlan>> = vec![];
    let mut shapes = vec![];
    for _ in 0..n {
        let data = if t.chance(1, 6) { let c = t.range(1, 3); table(t, c) } else { Arc::clone(&base) };
        let parts = if t.chance(1, 6) { t.range(1, 4) } else { usual };
        let v = VScan::new(data, None, vec![vec![0]; parts], vec![]);
        shapes.push((parts, schema_sig(&v.schema())));
        variants.push(Arc::new(v));
    }
    let original: Arc<dyn ExecutionPlan> = Arc::new(VScan::new(Arc::clone(&base), None, vec![vec![0]; t.range(1, 4)], vec![]));
    let desc = format!("{shapes:?}");
    let agree = n > 0 && shapes.iter().all(|s| *s == shapes[0]);
    match DistributedLeafExec::try_new(Arc::clone(&original), variants.clone()) {
        Ok(_) if !agree => fail("accepted", "variants that disagree were accepted", &desc),
        Err(e) if agree => fail("rejected", format!("variants that agree were rejected: {e}"), &desc),
        Err(_) => Res::Ok(Info { nontrivial: n > 1, desc, classes: vec!["rejected".into()] }),
        Ok(l) => {
            if l.variants().len() != n || l.variants().iter().zip(&variants).any(|(a, b)| !Arc::ptr_eq(a, b)) || !Arc::ptr_eq(l.original(), &original) {
                return fail("variants changed", "the leaf does not hold the variants it was given in their order", &desc);
            }
            if l.properties().partitioning.partition_count() != shapes[0].0 || schema_sig(&l.schema()) != shapes[0].1 {
                return fail("properties", "the leaf does not have the partitions and the schema of its variants", &desc);
            }
            Res::Ok(Info { nontrivial: n > 1, desc, classes: vec!["accepted".into()] })
        }
    }
}

pub fn property() -> Property {
    Property {
        id: "C07",
        rule: "a scan is really run by several tasks (or several variants are offered)",
        tape_len: 260,
        quick: 12000,
        thorough: 250000,
        threads: 8,
        hang_is_violation: true,
        assumptions: &["files are in an in-memory object store shared by all the nodes", "DataFusion's own readers assign the row groups and lines of a file to byte ranges without overlap"],
        parts: vec![
            Part { name: "files", weight: 6, run: files_case },
            Part { name: "groups", weight: 3, run: groups_case },
            Part { name: "handmade", weight: 1, run: handmade },
        ],
    }
}
